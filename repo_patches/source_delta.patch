From 8f3ed8a074c4cf477966bec6344bedf84e7e0916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:36 +0000
Subject: [PATCH 01/59] fix: Input cursor counts graphemes after inserting a
 combining character

---
 crates/textual/src/widget/input.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index 0957049..2867721 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -8,7 +8,7 @@ use tcss::types::Visibility;
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
 
 use crate::canvas::{Canvas, Region};
-use crate::grapheme::{grapheme_byte_index, grapheme_byte_range, grapheme_count, graphemes};
+use crate::grapheme::{grapheme_byte_index, grapheme_byte_range, grapheme_count, grapheme_indices, graphemes};
 use crate::widget::static_widget::Static;
 use crate::{KeyCode, MouseEvent, Size, Widget};
 
@@ -170,7 +170,12 @@ impl<M> Input<M> {
         let cursor = self.cursor.min(grapheme_count(&self.value));
         let byte_index = grapheme_byte_index(&self.value, cursor);
         self.value.insert(byte_index, ch);
-        self.cursor = cursor + 1;
+        // The cursor counts graphemes: a combining character joins its neighbour
+        // instead of adding one, so count the graphemes up to the inserted text.
+        let inserted_end = byte_index + ch.len_utf8();
+        self.cursor = grapheme_indices(&self.value)
+            .take_while(|(start, _)| *start < inserted_end)
+            .count();
         self.refresh_display();
     }
 
-- 
2.43.0


From b4c1277c9400495f5c1cdcf3b5749903c7f39329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:36 +0000
Subject: [PATCH 02/59] fix: wrap keeps lines that fit verbatim and never
 exceeds the width of styled text

---
 crates/textual/src/content.rs | 63 ++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 8df4ef1..bd17e88 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -25,7 +25,7 @@
 
 use std::collections::HashMap;
 
-use crate::grapheme::{display_width, graphemes};
+use crate::grapheme::{display_width, grapheme_indices, graphemes};
 use crate::segment::{Segment, Style};
 use crate::strip::Strip;
 use tcss::types::link::LinkStyle;
@@ -547,12 +547,21 @@ impl Content {
                     }
                 },
                 TextWrap::Wrap => {
-                    let wrapped = if has_spans {
+                    let wrapped = if display_width(line) <= width {
+                        // The line fits: keep it verbatim, including its whitespace
+                        vec![render_full_line()]
+                    } else if has_spans {
                         let spans = self.spans.as_ref().unwrap();
                         self.wrap_line_with_spans(line, line_start, width, spans)
                     } else {
                         self.wrap_line(line, width)
                     };
+                    // A whitespace-only line still occupies a row
+                    let wrapped = if wrapped.is_empty() {
+                        vec![Strip::new()]
+                    } else {
+                        wrapped
+                    };
                     let last_index = wrapped.len().saturating_sub(1);
                     for (index, strip) in wrapped.into_iter().enumerate() {
                         let strip = if overflow == TextOverflow::Ellipsis {
@@ -674,7 +683,7 @@ impl Content {
             }
         }
 
-        let mut current_segment_start = 0;
+        let mut current_segment_start = word_positions.first().map_or(0, |(start, _)| *start);
         let mut i = 0;
 
         while i < words.len() {
@@ -687,14 +696,31 @@ impl Content {
                     current_width = word_width;
                     i += 1;
                 } else {
-                    // Word too long, need to break it - use the simple approach for now
+                    // Word too long, break it at grapheme boundaries
                     let (word_byte_start, word_byte_end) = word_positions[i];
-                    let segment_text = &line[word_byte_start..word_byte_end];
-                    let abs_start = line_start + word_byte_start;
-                    let abs_end = line_start + word_byte_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
+                    let mut piece_start = word_byte_start;
+                    let mut piece_width = 0;
+                    for (offset, grapheme) in grapheme_indices(word) {
+                        let grapheme_width = display_width(grapheme);
+                        let piece_end = word_byte_start + offset;
+                        if piece_width + grapheme_width > width && piece_end > piece_start {
+                            result.push(self.render_line_with_spans(
+                                &line[piece_start..piece_end],
+                                line_start + piece_start,
+                                line_start + piece_end,
+                                spans,
+                            ));
+                            piece_start = piece_end;
+                            piece_width = 0;
+                        }
+                        piece_width += grapheme_width;
+                    }
+                    result.push(self.render_line_with_spans(
+                        &line[piece_start..word_byte_end],
+                        line_start + piece_start,
+                        line_start + word_byte_end,
+                        spans,
+                    ));
                     current_segment_start = if i + 1 < word_positions.len() {
                         word_positions[i + 1].0
                     } else {
@@ -704,7 +730,8 @@ impl Content {
                     i += 1;
                 }
             } else {
-                let space_and_word = 1 + word_width;
+                let gap = &line[word_positions[i - 1].1..word_positions[i].0];
+                let space_and_word = display_width(gap) + word_width;
                 if current_width + space_and_word <= width {
                     // Word fits
                     current_width += space_and_word;
@@ -747,8 +774,14 @@ impl Content {
         let mut current_line = String::new();
         let mut current_width = 0;
 
+        let mut previous_end = 0;
+
         for word in line.split_whitespace() {
             let word_width = display_width(word);
+            let word_start = word.as_ptr() as usize - line.as_ptr() as usize;
+            let gap = &line[previous_end..word_start];
+            let gap_width = display_width(gap);
+            previous_end = word_start + word.len();
 
             if current_width == 0 {
                 // Start of line
@@ -759,11 +792,11 @@ impl Content {
                     // Word is too long, need to break it
                     result.extend(self.break_word(word, width));
                 }
-            } else if current_width + 1 + word_width <= width {
-                // Word fits with space
-                current_line.push(' ');
+            } else if current_width + gap_width + word_width <= width {
+                // Word fits with the whitespace in front of it
+                current_line.push_str(gap);
                 current_line.push_str(word);
-                current_width += 1 + word_width;
+                current_width += gap_width + word_width;
             } else {
                 // Word doesn't fit, emit current line and start new
                 let segment = match &self.style {
-- 
2.43.0


From 4c75f715a6818939d96bbdcdeb66c56958de12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:44 +0000
Subject: [PATCH 03/59] fix: Strip crop yields exactly the requested cells and
 simplify keeps metadata

---
 crates/textual/src/content.rs | 14 +++++++++----
 crates/textual/src/segment.rs | 27 ++++++++++++++++++++++++
 crates/textual/src/strip.rs   | 39 +++++++++--------------------------
 3 files changed, 47 insertions(+), 33 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index bd17e88..5580eba 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -875,11 +875,17 @@ fn split_strip_by_width(strip: &Strip, width: usize) -> Vec<Strip> {
     }
     let mut parts = Vec::new();
     let mut start = 0;
-    while start < total {
-        let end = (start + width).min(total);
-        parts.push(strip.crop(start, end));
-        start = end;
+    let mut end = 0;
+    for grapheme in graphemes(&strip.text()) {
+        // Fold in front of a wide character that would straddle the edge
+        let grapheme_width = display_width(grapheme);
+        if end + grapheme_width > start + width && end > start {
+            parts.push(strip.crop(start, end));
+            start = end;
+        }
+        end += grapheme_width;
     }
+    parts.push(strip.crop(start, total));
     parts
 }
 
diff --git a/crates/textual/src/segment.rs b/crates/textual/src/segment.rs
index 054327b..ec3a1fa 100644
--- a/crates/textual/src/segment.rs
+++ b/crates/textual/src/segment.rs
@@ -291,6 +291,33 @@ impl Segment {
         )
     }
 
+    /// Returns the part of this segment that covers the cells `start..end`.
+    ///
+    /// The result is exactly `end - start` cells wide: a wide character that straddles
+    /// either edge is replaced by blanks for the cells that remain visible.
+    pub(crate) fn slice_cells(&self, start: usize, end: usize) -> Segment {
+        let mut text = String::new();
+        let mut cell_pos = 0;
+
+        for (_, grapheme) in grapheme_indices(&self.text) {
+            let next_pos = cell_pos + display_width(grapheme);
+            if cell_pos >= start && next_pos <= end {
+                text.push_str(grapheme);
+            } else {
+                let visible = next_pos.min(end).saturating_sub(cell_pos.max(start));
+                text.push_str(&" ".repeat(visible));
+            }
+            cell_pos = next_pos;
+        }
+
+        Segment {
+            text,
+            cell_length: end - start,
+            style: self.style.clone(),
+            meta: self.meta.clone(),
+        }
+    }
+
     /// Applies a style layer on top of this segment's style.
     ///
     /// Creates a new segment with the combined styles. The new style's
diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 7057158..180321b 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -200,25 +200,9 @@ impl Strip {
             if local_start == 0 && local_end == seg_len {
                 // Include entire segment
                 result_segments.push(segment.clone());
-            } else if local_start == 0 {
-                // Take from start
-                let (left, _) = segment.split_at(local_end);
-                if !left.is_empty() {
-                    result_segments.push(left);
-                }
-            } else if local_end == seg_len {
-                // Take to end
-                let (_, right) = segment.split_at(local_start);
-                if !right.is_empty() {
-                    result_segments.push(right);
-                }
             } else {
-                // Take middle portion
-                let (_, temp) = segment.split_at(local_start);
-                let (middle, _) = temp.split_at(local_end - local_start);
-                if !middle.is_empty() {
-                    result_segments.push(middle);
-                }
+                // Include the cells of this segment that fall in the range
+                result_segments.push(segment.slice_cells(local_start, local_end));
             }
 
             current_pos = seg_end;
@@ -272,35 +256,32 @@ impl Strip {
         let mut result = SegmentVec::new();
         let mut current_text = String::new();
         let mut current_style: Option<Style> = None;
+        let mut current_meta: HashMap<String, String> = HashMap::new();
         let mut has_current = false;
 
         for segment in &self.segments {
             if !has_current {
                 current_text = segment.text().to_string();
                 current_style = segment.style().cloned();
+                current_meta = segment.meta().clone();
                 has_current = true;
-            } else if segment.style() == current_style.as_ref() {
-                // Same style, merge text
+            } else if segment.style() == current_style.as_ref() && *segment.meta() == current_meta {
+                // Same style and metadata, merge text
                 current_text.push_str(segment.text());
             } else {
-                // Different style, emit current and start new
+                // Different style or metadata, emit current and start new
                 if !current_text.is_empty() {
-                    match current_style {
-                        Some(s) => result.push(Segment::styled(current_text, s)),
-                        None => result.push(Segment::new(current_text)),
-                    }
+                    result.push(build_segment(&current_text, current_style, &current_meta));
                 }
                 current_text = segment.text().to_string();
                 current_style = segment.style().cloned();
+                current_meta = segment.meta().clone();
             }
         }
 
         // Emit final segment
         if !current_text.is_empty() {
-            match current_style {
-                Some(s) => result.push(Segment::styled(current_text, s)),
-                None => result.push(Segment::new(current_text)),
-            }
+            result.push(build_segment(&current_text, current_style, &current_meta));
         }
 
         Strip::from_smallvec(result)
-- 
2.43.0


From 93f3c26f997fb7756fd9d5321958f874ac03bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:24 +0000
Subject: [PATCH 04/59] fix: Canvas never leaves half of a wide grapheme behind
 and holds more than 65535 cells

---
 crates/textual/src/canvas.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 0292538..88d27af 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -140,7 +140,7 @@ impl Canvas {
             bg: None,
             attrs: TextAttributes::default(),
         };
-        let cell_count = (width * height) as usize;
+        let cell_count = width as usize * height as usize;
         Self {
             size: Size { width, height },
             cells: vec![blank_cell.clone(); cell_count],
@@ -292,6 +292,11 @@ impl Canvas {
             && fg.is_none()
             && attrs == TextAttributes::default();
 
+        if !preserve_text {
+            self.split_wide_grapheme(x, y);
+            self.split_wide_grapheme(end_x, y);
+        }
+
         let index = (y as usize) * (self.size.width as usize) + (x as usize);
         let new_bg = resolve_background(bg, self.cells[index].bg);
         if preserve_text {
@@ -336,6 +341,31 @@ impl Canvas {
         }
     }
 
+    /// Blank a multi-cell grapheme that straddles the boundary left of `x`.
+    ///
+    /// Called before part of it is overwritten, so that neither a lead cell without its
+    /// continuation nor a continuation without its lead is left behind.
+    fn split_wide_grapheme(&mut self, x: i32, y: i32) {
+        let width = self.size.width as usize;
+        let row = y as usize * width;
+        if x <= 0 || x as usize >= width || !self.cells[row + x as usize].continuation {
+            return;
+        }
+        let mut start = x as usize;
+        while start > 0 && self.cells[row + start].continuation {
+            start -= 1;
+        }
+        let mut end = x as usize;
+        while end < width && self.cells[row + end].continuation {
+            end += 1;
+        }
+        for cell in &mut self.cells[row + start..row + end] {
+            cell.symbol = " ".to_string();
+            cell.width = 1;
+            cell.continuation = false;
+        }
+    }
+
     /// Renders a Strip at the given position.
     ///
     /// Iterates through each segment in the strip and renders its text
-- 
2.43.0


From 7fe70500b59ea5ad9733bf7301272c93c8f5b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:47 +0000
Subject: [PATCH 05/59] fix: vertical layout shares the space of its own
 container among fr children and keeps every row

---
 crates/textual/src/layouts/vertical.rs | 215 +++++++++++--------------
 1 file changed, 93 insertions(+), 122 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 4571ff6..6d10968 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -9,7 +9,7 @@
 
 use crate::canvas::{Region, Size};
 use tcss::types::ComputedStyle;
-use tcss::types::geometry::Unit;
+use tcss::types::geometry::{Scalar, Unit};
 
 use super::size_resolver::{apply_box_sizing_height, resolve_width_with_intrinsic};
 use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
@@ -32,7 +32,15 @@ fn resolve_child_width(
     let margin_right = child_style.margin.right.value as i32;
 
     // Resolve base width
-    let base_width = resolve_width_with_intrinsic(child_style, desired_size.width, available.width);
+    let base_width = match &child_style.width {
+        Some(w) if w.unit == Unit::ViewWidth => {
+            ((w.value / 100.0) * viewport.width as f64).round() as i32
+        }
+        Some(w) if w.unit == Unit::ViewHeight => {
+            ((w.value / 100.0) * viewport.height as f64).round() as i32
+        }
+        _ => resolve_width_with_intrinsic(child_style, desired_size.width, available.width),
+    };
     let should_reduce_by_margins = match &child_style.width {
         Some(w) => matches!(
             w.unit,
@@ -84,6 +92,78 @@ fn resolve_child_width(
     }
 }
 
+/// Resolve a child's box height (before flooring), or `None` if it takes a share of the
+/// remaining space (`fr` units, or no CSS height on a widget that wants to fill).
+fn resolve_fixed_height(
+    child: &LayoutChild,
+    width: i32,
+    available: Region,
+    viewport: Viewport,
+) -> Option<f64> {
+    let Some(h) = &child.style.height else {
+        // No CSS height: fill if the widget asks for it, otherwise use the desired size
+        let desired = child.desired_size.height;
+        return (desired != u16::MAX).then_some(desired as f64);
+    };
+    match h.unit {
+        Unit::Fraction => None,
+        Unit::Auto => {
+            let width_u16 = width.clamp(0, u16::MAX as i32) as u16;
+            Some(child.node.intrinsic_height_for_width(width_u16) as f64)
+        }
+        // Cells are exact integers, apply box-sizing
+        Unit::Cells => Some(apply_box_sizing_height(h.value as i32, &child.style) as f64),
+        // Percentages refer to the parent container, so that 100% fills it
+        Unit::Percent | Unit::Height => Some((h.value / 100.0) * available.height as f64),
+        // Python uses parent.app.size (terminal size) for w units
+        Unit::Width | Unit::ViewWidth => Some((h.value / 100.0) * viewport.width as f64),
+        Unit::ViewHeight => Some((h.value / 100.0) * viewport.height as f64),
+    }
+}
+
+/// Share of the remaining space taken by a child without a fixed height (implicitly 1fr).
+fn fr_value(style: &ComputedStyle) -> f64 {
+    style.height.as_ref().map_or(1.0, |h| h.value)
+}
+
+/// Take the margins out of percentage heights and apply min/max-height constraints.
+fn constrain_height(
+    box_height: f64,
+    style: &ComputedStyle,
+    available: Region,
+    viewport: Viewport,
+) -> f64 {
+    let resolve = |scalar: &Scalar| match scalar.unit {
+        Unit::Percent | Unit::Height => (scalar.value / 100.0) * available.height as f64,
+        Unit::Width => (scalar.value / 100.0) * available.width as f64,
+        Unit::ViewWidth => (scalar.value / 100.0) * viewport.width as f64,
+        Unit::ViewHeight => (scalar.value / 100.0) * viewport.height as f64,
+        _ => scalar.value,
+    };
+    // Percentage heights are reduced by margins to fit within the container; for all other
+    // heights margins are outside the box (fr units only share what the margins leave).
+    let box_height = match &style.height {
+        Some(h) if matches!(h.unit, Unit::Percent | Unit::Height) => {
+            let margins = (style.margin.top.value + style.margin.bottom.value) as f64;
+            (box_height - margins).max(0.0)
+        }
+        _ => box_height,
+    };
+    let box_height = match &style.max_height {
+        Some(max_h) => box_height.min(resolve(max_h)),
+        None => box_height,
+    };
+    match &style.min_height {
+        Some(min_h) => box_height.max(resolve(min_h)),
+        None => box_height,
+    }
+}
+
+/// Floor that is not fooled by accumulated floating-point error just below an integer.
+fn floor_cells(value: f64) -> i32 {
+    (value + 1e-6).floor() as i32
+}
+
 impl Layout for VerticalLayout {
     fn arrange(
         &mut self,
@@ -107,8 +187,6 @@ impl Layout for VerticalLayout {
             let margin_top = child_style.margin.top.value as f64;
             let margin_bottom = child_style.margin.bottom.value as f64;
             let child_width = resolve_child_width(child_style, desired_size, available, viewport);
-            let width_u16 = child_width.clamp(0, u16::MAX as i32) as u16;
-            let intrinsic_height = child.node.intrinsic_height_for_width(width_u16) as f64;
 
             // CSS margin collapsing
             let effective_top_margin = if i == 0 {
@@ -119,52 +197,18 @@ impl Layout for VerticalLayout {
             total_margin += effective_top_margin + margin_bottom;
             prev_margin_bottom = margin_bottom;
 
-            if let Some(height) = &child_style.height {
-                match height.unit {
-                    Unit::Fraction => {
-                        total_fr += height.value;
-                    }
-                    Unit::Cells => {
-                        // Cells are exact integers, apply box-sizing
-                        let css_height = apply_box_sizing_height(height.value as i32, child_style);
-                        fixed_height_total += css_height as f64;
-                    }
-                    Unit::Percent | Unit::Height => {
-                        // Python uses parent.app.size (terminal size) for these units
-                        // So we use viewport, not available region
-                        let raw = (height.value / 100.0) * viewport.height as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::Width => {
-                        // Python uses parent.app.size (terminal size) for w units
-                        let raw = (height.value / 100.0) * viewport.width as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::ViewWidth => {
-                        let raw = (height.value / 100.0) * viewport.width as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::ViewHeight => {
-                        let raw = (height.value / 100.0) * viewport.height as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::Auto => {
-                        fixed_height_total += intrinsic_height;
-                    }
+            match resolve_fixed_height(child, child_width, available, viewport) {
+                Some(height) => {
+                    fixed_height_total +=
+                        constrain_height(height, child_style, available, viewport);
                 }
-            } else if desired_size.height == u16::MAX {
-                // No CSS height but widget wants to fill - treat as 1fr
-                total_fr += 1.0;
-            } else {
-                // No height specified - use desired size
-                fixed_height_total += desired_size.height as f64;
+                None => total_fr += fr_value(child_style),
             }
         }
 
         // Calculate remaining space for fr units
-        // Use viewport.height to match Python's behavior (uses parent.app.size for all calculations)
         let remaining_for_fr =
-            (viewport.height as f64 - fixed_height_total - total_margin).max(0.0);
+            (available.height as f64 - fixed_height_total - total_margin).max(0.0);
 
         // Calculate fraction_unit (size of 1fr)
         // When remaining_for_fr <= 0, use fraction_unit = 1.0 (matching Python Textual)
@@ -188,89 +232,16 @@ impl Layout for VerticalLayout {
 
             // Resolve width
             let width = resolve_child_width(child_style, desired_size, available, viewport);
-            let width_u16 = width.clamp(0, u16::MAX as i32) as u16;
 
             // Resolve box_model height as f64 (keeping fractional precision)
-            // This must match the calculation in the first pass
-            let box_height: f64 = if let Some(h) = &child_style.height {
-                match h.unit {
-                    Unit::Fraction => {
-                        // fr units use fraction_unit
-                        h.value * fraction_unit
-                    }
-                    Unit::Auto => child.node.intrinsic_height_for_width(width_u16) as f64,
-                    Unit::Cells => {
-                        // Cells are exact integers
-                        apply_box_sizing_height(h.value as i32, child_style) as f64
-                    }
-                    Unit::Percent | Unit::Height => {
-                        // For percentage heights, use available.height (parent container)
-                        // This ensures height: 100% fills the parent, not the viewport
-                        (h.value / 100.0) * available.height as f64
-                    }
-                    Unit::Width => {
-                        // Python uses parent.app.size (terminal size) for w units
-                        (h.value / 100.0) * viewport.width as f64
-                    }
-                    Unit::ViewWidth => (h.value / 100.0) * viewport.width as f64,
-                    Unit::ViewHeight => (h.value / 100.0) * viewport.height as f64,
-                }
-            } else if desired_size.height == u16::MAX {
-                // No CSS height but widget wants to fill - use fraction_unit (implicit 1fr)
-                fraction_unit
-            } else {
-                // No CSS height - use intrinsic height
-                desired_size.height as f64
-            };
-
-            // Apply max-height constraint
-            let box_height = if let Some(max_h) = &child_style.max_height {
-                let max_height_value = match max_h.unit {
-                    Unit::Cells => max_h.value,
-                    Unit::Percent => (max_h.value / 100.0) * available.height as f64,
-                    Unit::Width => (max_h.value / 100.0) * available.width as f64,
-                    Unit::Height => (max_h.value / 100.0) * available.height as f64,
-                    Unit::ViewWidth => (max_h.value / 100.0) * viewport.width as f64,
-                    Unit::ViewHeight => (max_h.value / 100.0) * viewport.height as f64,
-                    _ => max_h.value,
-                };
-                box_height.min(max_height_value)
-            } else {
-                box_height
-            };
-
-            // Apply min-height constraint (floor)
-            let box_height = if let Some(min_h) = &child_style.min_height {
-                let min_height_value = match min_h.unit {
-                    Unit::Cells => min_h.value,
-                    Unit::Percent => (min_h.value / 100.0) * available.height as f64,
-                    Unit::Width => (min_h.value / 100.0) * available.width as f64,
-                    Unit::Height => (min_h.value / 100.0) * available.height as f64,
-                    Unit::ViewWidth => (min_h.value / 100.0) * viewport.width as f64,
-                    Unit::ViewHeight => (min_h.value / 100.0) * viewport.height as f64,
-                    _ => min_h.value,
-                };
-                box_height.max(min_height_value)
-            } else {
-                box_height
-            };
+            let box_height = resolve_fixed_height(child, width, available, viewport)
+                .unwrap_or_else(|| fr_value(child_style) * fraction_unit);
+            let box_height = constrain_height(box_height, child_style, available, viewport);
 
             // Get vertical margins
             let margin_top = child_style.margin.top.value as f64;
             let margin_bottom = child_style.margin.bottom.value as f64;
 
-            // For percentage/fill heights, reduce by margins to fit within container
-            // For explicit heights (cells), margins are outside the content box
-            let should_reduce_by_margins = match &child_style.height {
-                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height | Unit::Fraction),
-                None => desired_size.height == u16::MAX, // fill case
-            };
-            let box_height = if should_reduce_by_margins {
-                (box_height - margin_top - margin_bottom).max(0.0)
-            } else {
-                box_height
-            };
-
             // CSS margin collapsing
             let effective_top_margin = if i == 0 {
                 margin_top
@@ -283,8 +254,8 @@ impl Layout for VerticalLayout {
             // Calculate next_y and region height using floor arithmetic
             // This matches Python: region.height = floor(next_y) - floor(y)
             let next_y = current_y + box_height;
-            let region_y = current_y.floor() as i32;
-            let region_height = (next_y.floor() as i32 - region_y).max(0);
+            let region_y = floor_cells(current_y);
+            let region_height = (floor_cells(next_y) - region_y).max(0);
 
             let new_region = Region {
                 x: available.x + margin_left,
-- 
2.43.0


From 63c3a122db91cda42c4c41146d07802382032089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:48 +0000
Subject: [PATCH 06/59] fix: horizontal layout resolves vh/vw heights, keeps
 cell heights and fills the row under min/max widths

---
 crates/textual/src/layouts/horizontal.rs | 127 +++++++++++++----------
 1 file changed, 72 insertions(+), 55 deletions(-)

diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index 5840dfc..68b9b0c 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -36,6 +36,40 @@ impl Layout for HorizontalLayout {
             tcss::types::BoxSizing::ContentBox => width + Fraction::from(horizontal_chrome(style)),
         };
 
+        let constrain_width = |width: i32, child_style: &ComputedStyle| {
+            // Apply max-width constraint
+            let width = if let Some(max_w) = &child_style.max_width {
+                let max_width_value = match max_w.unit {
+                    Unit::Cells => max_w.value as i32,
+                    Unit::Percent => ((max_w.value / 100.0) * available.width as f64) as i32,
+                    Unit::Width => ((max_w.value / 100.0) * available.width as f64) as i32,
+                    Unit::Height => ((max_w.value / 100.0) * available.height as f64) as i32,
+                    Unit::ViewWidth => ((max_w.value / 100.0) * viewport.width as f64) as i32,
+                    Unit::ViewHeight => ((max_w.value / 100.0) * viewport.height as f64) as i32,
+                    _ => max_w.value as i32,
+                };
+                width.min(max_width_value)
+            } else {
+                width
+            };
+
+            // Apply min-width constraint (floor)
+            if let Some(min_w) = &child_style.min_width {
+                let min_width_value = match min_w.unit {
+                    Unit::Cells => min_w.value as i32,
+                    Unit::Percent => ((min_w.value / 100.0) * available.width as f64) as i32,
+                    Unit::Width => ((min_w.value / 100.0) * available.width as f64) as i32,
+                    Unit::Height => ((min_w.value / 100.0) * available.height as f64) as i32,
+                    Unit::ViewWidth => ((min_w.value / 100.0) * viewport.width as f64) as i32,
+                    Unit::ViewHeight => ((min_w.value / 100.0) * viewport.height as f64) as i32,
+                    _ => min_w.value as i32,
+                };
+                width.max(min_width_value)
+            } else {
+                width
+            }
+        };
+
         // First pass: resolve fixed widths and collect fr values.
         let mut fixed_widths: Vec<Option<i32>> = vec![None; children.len()];
         let mut fr_values: Vec<Option<i64>> = vec![None; children.len()];
@@ -146,6 +180,7 @@ impl Layout for HorizontalLayout {
             };
 
             if let Some(width) = resolved_fixed {
+                let width = constrain_width(width, child_style);
                 fixed_widths[i] = Some(width);
                 fixed_width_sum += width;
             }
@@ -187,37 +222,7 @@ impl Layout for HorizontalLayout {
             // Resolve width from precomputed fixed/fr allocations.
             let width = fixed_widths[i].unwrap_or(fr_widths[i]);
 
-            // Apply max-width constraint
-            let width = if let Some(max_w) = &child_style.max_width {
-                let max_width_value = match max_w.unit {
-                    Unit::Cells => max_w.value as i32,
-                    Unit::Percent => ((max_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Width => ((max_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Height => ((max_w.value / 100.0) * available.height as f64) as i32,
-                    Unit::ViewWidth => ((max_w.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((max_w.value / 100.0) * viewport.height as f64) as i32,
-                    _ => max_w.value as i32,
-                };
-                width.min(max_width_value)
-            } else {
-                width
-            };
-
-            // Apply min-width constraint (floor)
-            let width = if let Some(min_w) = &child_style.min_width {
-                let min_width_value = match min_w.unit {
-                    Unit::Cells => min_w.value as i32,
-                    Unit::Percent => ((min_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Width => ((min_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Height => ((min_w.value / 100.0) * available.height as f64) as i32,
-                    Unit::ViewWidth => ((min_w.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((min_w.value / 100.0) * viewport.height as f64) as i32,
-                    _ => min_w.value as i32,
-                };
-                width.max(min_width_value)
-            } else {
-                width
-            };
+            let width = constrain_width(width, child_style);
 
             // Resolve height - horizontal layout children fill available height by default
             // Apply box-sizing only for explicit CSS heights, not auto/intrinsic
@@ -237,9 +242,21 @@ impl Layout for HorizontalLayout {
                         let css_height = ((h.value / 100.0) * available.height as f64) as i32;
                         apply_box_sizing_height(css_height, child_style)
                     }
-                    _ => {
-                        // Other units - use value as-is with box-sizing
-                        apply_box_sizing_height(h.value as i32, child_style)
+                    Unit::Width => {
+                        let css_height = ((h.value / 100.0) * available.width as f64) as i32;
+                        apply_box_sizing_height(css_height, child_style)
+                    }
+                    Unit::Height => {
+                        let css_height = ((h.value / 100.0) * available.height as f64) as i32;
+                        apply_box_sizing_height(css_height, child_style)
+                    }
+                    Unit::ViewWidth => {
+                        let css_height = ((h.value / 100.0) * viewport.width as f64) as i32;
+                        apply_box_sizing_height(css_height, child_style)
+                    }
+                    Unit::ViewHeight => {
+                        let css_height = ((h.value / 100.0) * viewport.height as f64) as i32;
+                        apply_box_sizing_height(css_height, child_style)
                     }
                 }
             } else {
@@ -247,6 +264,26 @@ impl Layout for HorizontalLayout {
                 available.height
             };
 
+            // Get margins for positioning
+            let margin_left = child_style.margin.left.value as i32;
+            let margin_right = child_style.margin.right.value as i32;
+            let margin_top = child_style.margin.top.value as i32;
+            let margin_bottom = child_style.margin.bottom.value as i32;
+
+            // For explicit (cells) and auto (intrinsic) heights, margins are outside the box.
+            // For other heights (fill/fr), reduce by vertical margins to fit within container.
+            let is_own_height = child_style
+                .height
+                .as_ref()
+                .map(|h| matches!(h.unit, Unit::Auto | Unit::Cells))
+                .unwrap_or(false);
+            let height = if is_own_height {
+                height // Use the child's own height directly
+            } else {
+                // Fill available: reduce by margins to prevent overflow
+                (height - margin_top - margin_bottom).max(0)
+            };
+
             // Apply max-height constraint
             let height = if let Some(max_h) = &child_style.max_height {
                 let max_height_value = match max_h.unit {
@@ -279,12 +316,6 @@ impl Layout for HorizontalLayout {
                 height
             };
 
-            // Get margins for positioning
-            let margin_left = child_style.margin.left.value as i32;
-            let margin_right = child_style.margin.right.value as i32;
-            let margin_top = child_style.margin.top.value as i32;
-            let margin_bottom = child_style.margin.bottom.value as i32;
-
             // CSS margin collapsing: use max of adjacent margins, not sum
             let effective_left_margin = if i == 0 {
                 margin_left
@@ -294,27 +325,13 @@ impl Layout for HorizontalLayout {
 
             current_x += effective_left_margin;
 
-            // For height: auto (intrinsic), use the height as-is since it's the content height.
-            // For other heights (fill/fr), reduce by vertical margins to fit within container.
-            let is_auto_height = child_style
-                .height
-                .as_ref()
-                .map(|h| h.unit == Unit::Auto)
-                .unwrap_or(false);
-            let adjusted_height = if is_auto_height {
-                height // Use intrinsic height directly
-            } else {
-                // Fill available: reduce by margins to prevent overflow
-                (height - margin_top - margin_bottom).max(0)
-            };
-
             placements.push(WidgetPlacement {
                 child_index,
                 region: Region {
                     x: current_x,
                     y: available.y + margin_top,
                     width,
-                    height: adjusted_height,
+                    height,
                 },
             });
 
-- 
2.43.0


From c0b0b1c7ef2c2816acb42e277f29465f87d91af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:54 +0000
Subject: [PATCH 07/59] fix: grid keeps spanned children and their margins
 inside their cells

---
 crates/textual/src/layouts/grid.rs | 46 ++++++++++++++++++++++++------
 crates/textual/src/widget/input.rs |  4 ++-
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index ba10c2d..7f1061a 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -120,14 +120,25 @@ impl GridLayout {
         grid.columns.unwrap_or(1) as usize
     }
 
-    /// Get the number of rows, either from CSS or calculated.
-    fn row_count(&self, grid: &GridStyle, cols: usize, child_count: usize) -> usize {
+    /// Get the number of rows, either from CSS or as many as the children need.
+    fn row_count(&self, grid: &GridStyle, cols: usize, children: &[LayoutChild]) -> usize {
         if let Some(rows) = grid.rows {
             rows as usize
         } else if cols == 0 {
             1
         } else {
-            (child_count + cols - 1) / cols
+            // Spans can take more rows than one cell per child would: an unbounded number of
+            // rows is available, of which the last one occupied counts.
+            let max_rows = children
+                .iter()
+                .map(|child| (child.style.grid_placement.row_span as usize).max(1))
+                .sum();
+            Self::compute_cell_assignments(children, max_rows, cols)
+                .iter()
+                .map(|&(row, _, row_span, _)| row + row_span)
+                .max()
+                .unwrap_or(0)
+                .max((children.len() + cols - 1) / cols)
         }
     }
 
@@ -436,7 +447,7 @@ impl GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
         let gutter_h = Self::resolve_scalar(&grid.gutter.1, available.width);
@@ -591,7 +602,7 @@ impl Layout for GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         // Get gutter values
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
@@ -738,9 +749,28 @@ impl Layout for GridLayout {
                             let margin_bottom = child_style.margin.bottom.value as i32;
                             let margin_left = child_style.margin.left.value as i32;
 
-                            // Reduce child dimensions by margins
-                            let child_width = (child_width - margin_left - margin_right).max(0);
-                            let child_height = (child_height - margin_top - margin_bottom).max(0);
+                            // Margins surround a child's own (cells/auto) size and reduce a size
+                            // taken from the cell; either way the child stays inside its cell.
+                            let is_own_size = |size: &Option<Scalar>| {
+                                size.as_ref()
+                                    .is_some_and(|s| matches!(s.unit, Unit::Auto | Unit::Cells))
+                            };
+                            let margin_width = margin_left + margin_right;
+                            let margin_height = margin_top + margin_bottom;
+                            let outer_width = if is_own_size(&child_style.width) {
+                                child_width + margin_width
+                            } else {
+                                child_width
+                            };
+                            let outer_height = if is_own_size(&child_style.height) {
+                                child_height + margin_height
+                            } else {
+                                child_height
+                            };
+                            let child_width =
+                                (outer_width.min(cell_region.width) - margin_width).max(0);
+                            let child_height =
+                                (outer_height.min(cell_region.height) - margin_height).max(0);
 
                             let final_region = Region {
                                 x: cell_region.x + margin_left,
diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index 2867721..a95a8df 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -8,7 +8,9 @@ use tcss::types::Visibility;
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
 
 use crate::canvas::{Canvas, Region};
-use crate::grapheme::{grapheme_byte_index, grapheme_byte_range, grapheme_count, grapheme_indices, graphemes};
+use crate::grapheme::{
+    grapheme_byte_index, grapheme_byte_range, grapheme_count, grapheme_indices, graphemes,
+};
 use crate::widget::static_widget::Static;
 use crate::{KeyCode, MouseEvent, Size, Widget};
 
-- 
2.43.0


From 244d7bdfa8e30327726ed47575448de984e111a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 08/59] fix: widgets on undeclared layers stack in order of
 appearance

---
 crates/textual/src/layouts/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 5c559b5..3247309 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -829,9 +829,14 @@ fn build_layers<'a>(
 
     // First: add widgets on layers NOT in layer_order (they render at the bottom)
     // This matches Python where undefined layers default to index 0 (bottom-most)
-    for (name, widgets) in layer_map.iter() {
-        if !layer_order.contains(name) {
-            result.push((name.clone(), widgets.clone()));
+    // in order of first appearance, so that the stacking does not depend on hash order
+    for child in children {
+        let name = child.style.layer.as_deref().unwrap_or("default");
+        if layer_order.iter().any(|layer| layer == name) {
+            continue;
+        }
+        if let Some((name, widgets)) = layer_map.remove_entry(name) {
+            result.push((name, widgets));
         }
     }
 
-- 
2.43.0


From 1e1c6ebf0838e65b6aa9ecd371b86f826398fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:22 +0000
Subject: [PATCH 09/59] fix: grid measures auto height at the width the child
 really gets

---
 crates/textual/src/layouts/grid.rs | 43 +++++++++++++-----------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index 7f1061a..86f53a1 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -717,32 +717,11 @@ impl Layout for GridLayout {
                             );
 
                             // Resolve child's actual size based on CSS width/height.
-                            let mut child_width = resolve_width_with_intrinsic(
+                            let child_width = resolve_width_with_intrinsic(
                                 child_style,
                                 desired_size.width,
                                 cell_region.width,
                             );
-                            // Constrain width to cell width (matches Textual's constrain_width=True)
-                            if child_width > cell_region.width {
-                                child_width = cell_region.width;
-                            }
-
-                            let height_is_auto = child_style
-                                .height
-                                .as_ref()
-                                .map_or(false, |h| h.unit == Unit::Auto);
-
-                            let child_height = if height_is_auto {
-                                // Auto height depends on width.
-                                child.node.intrinsic_height_for_width(child_width as u16) as i32
-                            } else {
-                                resolve_height_with_intrinsic(
-                                    child_style,
-                                    desired_size.height,
-                                    cell_region.height,
-                                )
-                            };
-
                             // Apply margins to child placement
                             let margin_top = child_style.margin.top.value as i32;
                             let margin_right = child_style.margin.right.value as i32;
@@ -762,13 +741,29 @@ impl Layout for GridLayout {
                             } else {
                                 child_width
                             };
+                            let child_width =
+                                (outer_width.min(cell_region.width) - margin_width).max(0);
+
+                            let height_is_auto = child_style
+                                .height
+                                .as_ref()
+                                .map_or(false, |h| h.unit == Unit::Auto);
+
+                            let child_height = if height_is_auto {
+                                // Auto height depends on width.
+                                child.node.intrinsic_height_for_width(child_width as u16) as i32
+                            } else {
+                                resolve_height_with_intrinsic(
+                                    child_style,
+                                    desired_size.height,
+                                    cell_region.height,
+                                )
+                            };
                             let outer_height = if is_own_size(&child_style.height) {
                                 child_height + margin_height
                             } else {
                                 child_height
                             };
-                            let child_width =
-                                (outer_width.min(cell_region.width) - margin_width).max(0);
                             let child_height =
                                 (outer_height.min(cell_region.height) - margin_height).max(0);
 
-- 
2.43.0


From 0d86f030ec18043379477510fdbfd97c14090e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:23 +0000
Subject: [PATCH 10/59] fix: content region never has a negative size beside
 oversized docked widgets

---
 crates/textual/src/layouts/mod.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 3247309..74b3dea 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -189,12 +189,8 @@ pub fn arrange_children_with_viewport(
     let content_region = Region {
         x: available.x + dock_spacing.left,
         y: available.y + dock_spacing.top,
-        width: available
-            .width
-            .saturating_sub(dock_spacing.left + dock_spacing.right),
-        height: available
-            .height
-            .saturating_sub(dock_spacing.top + dock_spacing.bottom),
+        width: (available.width - dock_spacing.left - dock_spacing.right).max(0),
+        height: (available.height - dock_spacing.top - dock_spacing.bottom).max(0),
     };
 
     // Run normal layout on remaining widgets
@@ -390,12 +386,8 @@ where
     let content_region = Region {
         x: available.x + dock_spacing.left,
         y: available.y + dock_spacing.top,
-        width: available
-            .width
-            .saturating_sub(dock_spacing.left + dock_spacing.right),
-        height: available
-            .height
-            .saturating_sub(dock_spacing.top + dock_spacing.bottom),
+        width: (available.width - dock_spacing.left - dock_spacing.right).max(0),
+        height: (available.height - dock_spacing.top - dock_spacing.bottom).max(0),
     };
 
     // Run normal layout on remaining widgets
-- 
2.43.0


From 81ebd83c35efcd443b3467efef599173355c3e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:01 +0000
Subject: [PATCH 11/59] fix: mouse events go to the child drawn topmost at the
 pointer, using the rendered geometry

---
 crates/textual/src/containers.rs            |  40 ++++-
 crates/textual/src/containers/container.rs  | 136 +++++++--------
 crates/textual/src/containers/grid.rs       |  51 +++---
 crates/textual/src/containers/item_grid.rs  |  50 +++---
 crates/textual/src/containers/scrollable.rs | 159 ++++++++---------
 crates/textual/src/layouts/mod.rs           |  23 +++
 crates/textual/src/widget/screen.rs         | 183 +++++++++-----------
 7 files changed, 328 insertions(+), 314 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 42cb4f6..443ebb6 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -118,7 +118,7 @@ impl<M> Center<M> {
     /// Calculate the centered region for the child within the given region.
     fn centered_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_width = child_size.width as i32;
+        let child_width = (child_size.width as i32).min(region.width);
         let x_offset = (region.width - child_width).max(0) / 2;
         Region {
             x: region.x + x_offset,
@@ -201,9 +201,27 @@ impl<M> Widget<M> for Center<M> {
             return None;
         }
         let centered = self.centered_region(region);
+        if !centered.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
         self.child_mut().on_mouse(event, centered)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, crate::widget::SenderInfo)> {
+        if !self.child().is_visible() {
+            return None;
+        }
+        let centered = self.centered_region(region);
+        if !centered.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        self.child_mut().on_mouse_with_sender(event, centered)
+    }
+
     fn clear_hover(&mut self) {
         if self.child().is_visible() {
             self.child_mut().clear_hover();
@@ -260,7 +278,7 @@ impl<M> Middle<M> {
     /// Calculate the vertically centered region for the child within the given region.
     fn middled_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_height = child_size.height as i32;
+        let child_height = (child_size.height as i32).min(region.height);
         let y_offset = (region.height - child_height).max(0) / 2;
         Region {
             x: region.x,
@@ -343,9 +361,27 @@ impl<M> Widget<M> for Middle<M> {
             return None;
         }
         let middled = self.middled_region(region);
+        if !middled.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
         self.child_mut().on_mouse(event, middled)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, crate::widget::SenderInfo)> {
+        if !self.child().is_visible() {
+            return None;
+        }
+        let middled = self.middled_region(region);
+        if !middled.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        self.child_mut().on_mouse_with_sender(event, middled)
+    }
+
     fn clear_hover(&mut self) {
         if self.child().is_visible() {
             self.child_mut().clear_hover();
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index cc6529e..58ae8a6 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -3,7 +3,7 @@
 //! Container is the base for all layout containers. It dispatches to the
 //! appropriate layout algorithm based on the `layout` CSS property.
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use tcss::types::Layout as LayoutDirection;
 use tcss::types::Overflow;
@@ -34,6 +34,15 @@ struct CachedLayout {
     viewport: Viewport,
 }
 
+/// Regions used by the last render of a container occupying `region`.
+#[derive(Debug, Clone, Copy)]
+struct RenderedGeometry {
+    region: Region,
+    layout_region: Region,
+    content_region: Region,
+    viewport: Viewport,
+}
+
 // Re-export for use by Horizontal/Vertical
 pub use tcss::types::Layout as ContainerLayoutDirection;
 
@@ -67,6 +76,8 @@ pub struct Container<M> {
     /// Cached layout placements to avoid recomputing on every render.
     /// Uses RefCell for interior mutability since render takes &self.
     cached_layout: RefCell<Option<CachedLayout>>,
+    /// Geometry of the last render, so that mouse events see the layout that was drawn.
+    rendered: Cell<Option<RenderedGeometry>>,
     /// Scroll state for overflow scrolling.
     /// Uses RefCell for interior mutability since render takes &self.
     scroll: RefCell<ScrollState>,
@@ -91,6 +102,7 @@ impl<M> Container<M> {
             layout_override: None,
             viewport: Size::new(80, 24), // Default until on_resize is called
             cached_layout: RefCell::new(None),
+            rendered: Cell::new(None),
             scroll: RefCell::new(ScrollState::default()),
             scrollbar_hover: None,
             scrollbar_drag: None,
@@ -173,21 +185,31 @@ impl<M> Container<M> {
         if !region.contains_point(column, row) {
             return false;
         }
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(column, row) {
-                return true;
+        self.child_at(region, column, row).is_some()
+    }
+
+    /// The child drawn on top at a point, with the region it was drawn in.
+    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<WidgetPlacement> {
+        let geometry = match self.rendered.get() {
+            Some(rendered) if rendered.region == region => rendered,
+            _ => {
+                // Not rendered here yet: approximate the viewport as the region
+                let inner_region =
+                    crate::containers::inner_region_for_container(region, &self.style);
+                RenderedGeometry {
+                    region,
+                    layout_region: inner_region,
+                    content_region: inner_region,
+                    viewport: region.into(),
+                }
             }
+        };
+        if !geometry.content_region.contains_point(column, row) {
+            return None;
         }
-        false
+        let placements = self.compute_child_placements(geometry.layout_region, geometry.viewport);
+        let scroll = self.scroll.borrow();
+        layouts::topmost_placement_at(&placements, (scroll.offset_x, scroll.offset_y), column, row)
     }
 
     /// Get the effective layout direction (override takes precedence over CSS).
@@ -816,6 +838,8 @@ Container {
         let viewport = canvas.viewport();
 
         // First compute placements to determine virtual content height
+        // (children may have changed since the last frame)
+        *self.cached_layout.borrow_mut() = None;
         let initial_placements = self.compute_child_placements(inner_region, viewport);
 
         // Calculate virtual content dimensions from placements (max extent relative to inner_region)
@@ -858,7 +882,8 @@ Container {
 
         // If scrollbar visibility changed the content width, we need to recompute placements
         // and update virtual dimensions (important for width-based units like `w` in min-height: 40w)
-        let placements = if show_v_scrollbar && content_region.width < inner_region.width {
+        let recompute = show_v_scrollbar && content_region.width < inner_region.width;
+        let placements = if recompute {
             // Invalidate cache since we need to recalculate with smaller width
             *self.cached_layout.borrow_mut() = None;
             let new_placements = self.compute_child_placements(content_region, viewport);
@@ -902,6 +927,17 @@ Container {
             initial_placements
         };
 
+        self.rendered.set(Some(RenderedGeometry {
+            region,
+            layout_region: if recompute {
+                content_region
+            } else {
+                inner_region
+            },
+            content_region,
+            viewport,
+        }));
+
         // Get scroll offsets for rendering
         let (offset_x, offset_y) = {
             let scroll = self.scroll.borrow();
@@ -1471,36 +1507,13 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, scrolled_placement)
-                {
-                    return Some(msg);
-                }
-            }
+        // Dispatch to the child drawn at the pointer
+        let hit = self.child_at(region, mx, my)?;
+        let child = &mut self.children[hit.child_index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse(event, hit.region)
     }
 
     fn on_mouse_with_sender(
@@ -1536,36 +1549,13 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, scrolled_placement)
-                {
-                    return Some(result);
-                }
-            }
+        // Dispatch to the child drawn at the pointer
+        let hit = self.child_at(region, mx, my)?;
+        let child = &mut self.children[hit.child_index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse_with_sender(event, hit.region)
     }
 
     fn count_focusable(&self) -> usize {
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 45082ba..fd47518 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -25,6 +25,8 @@
 //! }
 //! ```
 
+use std::cell::Cell;
+
 use tcss::{
     ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibility,
     types::keyline::KeylineStyle,
@@ -45,6 +47,8 @@ pub struct Grid<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// Viewport of the last render, so that mouse events see the layout that was drawn
+    last_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
 }
 
@@ -56,6 +60,7 @@ impl<M> Grid<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            last_viewport: Cell::new(None),
             id: None,
         }
     }
@@ -242,6 +247,7 @@ Grid {
 
         // 2. Render children in inner region using the canvas viewport
         let viewport = canvas.viewport();
+        self.last_viewport.set(Some(viewport));
         canvas.push_clip(inner_region);
         for placement in self.compute_child_placements(inner_region, viewport) {
             let child = &self.children[placement.child_index];
@@ -369,22 +375,17 @@ Grid {
         }
 
         // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Then iterate and dispatch mouse events (borrows self mutably)
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, placement.region)
-                {
-                    return Some(msg);
-                }
-            }
+        // The rendered viewport, or the region before any render
+        let viewport = self.last_viewport.get().unwrap_or(region.into());
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
+            return None;
         }
+        let placements = self.compute_child_placements(inner_region, viewport);
 
-        None
+        // Dispatch to the child drawn at the pointer (borrows self mutably)
+        let hit = layouts::topmost_placement_at(&placements, (0, 0), mx, my)?;
+        self.children[hit.child_index].on_mouse(event, hit.region)
     }
 
     fn on_mouse_with_sender(
@@ -400,21 +401,17 @@ Grid {
         }
 
         // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, placement.region)
-                {
-                    return Some(result);
-                }
-            }
+        // The rendered viewport, or the region before any render
+        let viewport = self.last_viewport.get().unwrap_or(region.into());
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
+            return None;
         }
+        let placements = self.compute_child_placements(inner_region, viewport);
 
-        None
+        // Dispatch to the child drawn at the pointer (borrows self mutably)
+        let hit = layouts::topmost_placement_at(&placements, (0, 0), mx, my)?;
+        self.children[hit.child_index].on_mouse_with_sender(event, hit.region)
     }
 
     fn count_focusable(&self) -> usize {
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 2c8e26f..b0a3203 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -6,6 +6,8 @@
 //! - `stretch_height`: Force all cells in a row to equal height
 //! - `regular`: Ensure no partial rows (even distribution)
 
+use std::cell::Cell;
+
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibility};
 
 use crate::canvas::{Canvas, Region, Size};
@@ -34,6 +36,8 @@ pub struct ItemGrid<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    /// Viewport of the last render, so that mouse events see the layout that was drawn
+    last_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
 
     // Runtime-configurable properties (passed to GridLayout via pre_layout)
@@ -52,6 +56,7 @@ impl<M> ItemGrid<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            last_viewport: Cell::new(None),
             id: None,
             min_column_width: None,
             max_column_width: None,
@@ -151,6 +156,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
         // 2. Render children in inner region using the canvas viewport
         let viewport = canvas.viewport();
+        self.last_viewport.set(Some(viewport));
         canvas.push_clip(inner_region);
         for placement in self.compute_child_placements(inner_region, viewport) {
             let child = &self.children[placement.child_index];
@@ -252,21 +258,17 @@ impl<M> Widget<M> for ItemGrid<M> {
             return None;
         }
 
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, placement.region)
-                {
-                    return Some(msg);
-                }
-            }
+        // The rendered viewport, or the region before any render
+        let viewport = self.last_viewport.get().unwrap_or(region.into());
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
+            return None;
         }
+        let placements = self.compute_child_placements(inner_region, viewport);
 
-        None
+        // Dispatch to the child drawn at the pointer (borrows self mutably)
+        let hit = layouts::topmost_placement_at(&placements, (0, 0), mx, my)?;
+        self.children[hit.child_index].on_mouse(event, hit.region)
     }
 
     fn on_mouse_with_sender(
@@ -281,21 +283,17 @@ impl<M> Widget<M> for ItemGrid<M> {
             return None;
         }
 
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, placement.region)
-                {
-                    return Some(result);
-                }
-            }
+        // The rendered viewport, or the region before any render
+        let viewport = self.last_viewport.get().unwrap_or(region.into());
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(mx, my) {
+            return None;
         }
+        let placements = self.compute_child_placements(inner_region, viewport);
 
-        None
+        // Dispatch to the child drawn at the pointer (borrows self mutably)
+        let hit = layouts::topmost_placement_at(&placements, (0, 0), mx, my)?;
+        self.children[hit.child_index].on_mouse_with_sender(event, hit.region)
     }
 
     fn count_focusable(&self) -> usize {
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 28593e2..28ed6df 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -7,7 +7,7 @@
 //! - Mouse wheel support
 //! - CSS-configurable scrollbar styling
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts::{self, Viewport};
@@ -50,6 +50,8 @@ pub struct ScrollableContainer<M> {
     scrollbar_hover: Option<bool>,
     /// Scrollbar being dragged: None, Some((vertical, grab_offset))
     scrollbar_drag: Option<(bool, i32)>,
+    /// Viewport of the last render, so that mouse events see the layout that was drawn
+    last_viewport: Cell<Option<Viewport>>,
     /// Widget ID for CSS targeting
     id: Option<String>,
     /// CSS classes for styling
@@ -76,6 +78,7 @@ impl<M> ScrollableContainer<M> {
             dirty: true,
             scrollbar_hover: None,
             scrollbar_drag: None,
+            last_viewport: Cell::new(None),
             id: None,
             classes: Vec::new(),
         }
@@ -286,6 +289,11 @@ impl<M> ScrollableContainer<M> {
         }
     }
 
+    /// Viewport for mouse handling: the rendered one, or the region before any render.
+    fn mouse_viewport(&self, region: Region) -> Viewport {
+        self.last_viewport.get().unwrap_or(region.into())
+    }
+
     fn compute_child_placements(
         &self,
         region: Region,
@@ -676,6 +684,7 @@ ScrollableContainer {
         };
 
         let viewport = canvas.viewport();
+        self.last_viewport.set(Some(viewport));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -981,7 +990,7 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self.mouse_viewport(region);
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -1041,16 +1050,13 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some(hit) = layouts::topmost_placement_at(
+                        &layout.placements,
+                        (offset_x, offset_y),
+                        mx,
+                        my,
+                    ) {
+                        return self.children[hit.child_index].on_mouse(event, hit.region);
                     }
                 }
                 None
@@ -1066,16 +1072,13 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some(hit) = layouts::topmost_placement_at(
+                        &layout.placements,
+                        (offset_x, offset_y),
+                        mx,
+                        my,
+                    ) {
+                        return self.children[hit.child_index].on_mouse(event, hit.region);
                     }
                 }
                 None
@@ -1091,16 +1094,13 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some(hit) = layouts::topmost_placement_at(
+                        &layout.placements,
+                        (offset_x, offset_y),
+                        mx,
+                        my,
+                    ) {
+                        return self.children[hit.child_index].on_mouse(event, hit.region);
                     }
                 }
                 None
@@ -1117,16 +1117,13 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some(hit) = layouts::topmost_placement_at(
+                        &layout.placements,
+                        (offset_x, offset_y),
+                        mx,
+                        my,
+                    ) {
+                        return self.children[hit.child_index].on_mouse(event, hit.region);
                     }
                 }
                 None
@@ -1185,7 +1182,7 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self.mouse_viewport(region);
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -1229,17 +1226,14 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some(hit) = layouts::topmost_placement_at(
+                        &layout.placements,
+                        (offset_x, offset_y),
+                        mx,
+                        my,
+                    ) {
+                        return self.children[hit.child_index]
+                            .on_mouse_with_sender(event, hit.region);
                     }
                 }
                 None
@@ -1259,17 +1253,14 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some(hit) = layouts::topmost_placement_at(
+                        &layout.placements,
+                        (offset_x, offset_y),
+                        mx,
+                        my,
+                    ) {
+                        return self.children[hit.child_index]
+                            .on_mouse_with_sender(event, hit.region);
                     }
                 }
                 None
@@ -1287,17 +1278,14 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some(hit) = layouts::topmost_placement_at(
+                        &layout.placements,
+                        (offset_x, offset_y),
+                        mx,
+                        my,
+                    ) {
+                        return self.children[hit.child_index]
+                            .on_mouse_with_sender(event, hit.region);
                     }
                 }
                 None
@@ -1314,17 +1302,14 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some(hit) = layouts::topmost_placement_at(
+                        &layout.placements,
+                        (offset_x, offset_y),
+                        mx,
+                        my,
+                    ) {
+                        return self.children[hit.child_index]
+                            .on_mouse_with_sender(event, hit.region);
                     }
                 }
                 None
diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 74b3dea..317eabe 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -83,6 +83,29 @@ pub struct Viewport {
     pub height: i32,
 }
 
+/// The placement drawn on top at a point, shifted by the scroll offset.
+///
+/// Placements are rendered in order, so the last one containing the point is the visible one.
+pub(crate) fn topmost_placement_at(
+    placements: &[WidgetPlacement],
+    offset: (i32, i32),
+    x: i32,
+    y: i32,
+) -> Option<WidgetPlacement> {
+    placements
+        .iter()
+        .rev()
+        .map(|placement| WidgetPlacement {
+            child_index: placement.child_index,
+            region: Region {
+                x: placement.region.x - offset.0,
+                y: placement.region.y - offset.1,
+                ..placement.region
+            },
+        })
+        .find(|placement| placement.region.contains_point(x, y))
+}
+
 impl From<Region> for Viewport {
     fn from(region: Region) -> Self {
         Self {
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index af87e7d..74c4fd1 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -14,7 +14,7 @@
 //!
 //! The last matching breakpoint wins (iterate in order).
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts;
@@ -38,6 +38,15 @@ pub const DEFAULT_VERTICAL_BREAKPOINTS: &[Breakpoint] = &[(0, "-short"), (24, "-
 
 const PAGE_SCROLL_RATIO: f32 = 0.9;
 
+/// Regions used by the last render of a screen occupying `region`.
+#[derive(Debug, Clone, Copy)]
+struct RenderedGeometry {
+    region: Region,
+    layout_region: Region,
+    content_region: Region,
+    viewport: layouts::Viewport,
+}
+
 /// The root container for a widget tree.
 ///
 /// `Screen` is responsible for:
@@ -55,6 +64,8 @@ pub struct Screen<M> {
     inline_style: StyleOverride,
     is_dirty: bool,
     scroll: RefCell<ScrollState>,
+    /// Geometry of the last render, so that mouse events see the layout that was drawn.
+    rendered: Cell<Option<RenderedGeometry>>,
     /// Which scrollbar is being hovered (Some(true) = vertical, Some(false) = horizontal).
     scrollbar_hover: Option<bool>,
     /// Active drag state: (vertical?, grab_offset)
@@ -73,6 +84,7 @@ impl<M> Screen<M> {
             inline_style: StyleOverride::default(),
             is_dirty: true,
             scroll: RefCell::new(ScrollState::default()),
+            rendered: Cell::new(None),
             scrollbar_hover: None,
             scrollbar_drag: None,
             horizontal_breakpoints: DEFAULT_HORIZONTAL_BREAKPOINTS,
@@ -212,39 +224,39 @@ impl<M> Screen<M> {
             (scroll.offset_x, scroll.offset_y)
         };
 
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            let scrolled_region = if let Some(child) = self.children.get(placement.child_index) {
-                let style = child.get_style();
-                if style.dock.is_none() && style.position != tcss::types::Position::Absolute {
-                    Region {
-                        x: scrolled_region.x - offset_x,
-                        y: scrolled_region.y - offset_y,
-                        width: scrolled_region.width,
-                        height: scrolled_region.height,
-                    }
-                } else {
-                    scrolled_region
-                }
-            } else {
-                scrolled_region
-            };
-            if scrolled_region.contains_point(event.column as i32, event.row as i32) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {
-                        child.set_hover(true);
-                    }
-                    return child.on_mouse_with_sender(event, scrolled_region);
-                }
-            }
+        let hit = layouts::topmost_placement_at(
+            &placements,
+            (offset_x, offset_y),
+            event.column as i32,
+            event.row as i32,
+        )?;
+        let child = self.children.get_mut(hit.child_index)?;
+        if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {
+            child.set_hover(true);
         }
+        child.on_mouse_with_sender(event, hit.region)
+    }
 
-        None
+    /// Geometry for mouse handling: the rendered one, or an estimate before any render.
+    fn mouse_geometry(&self, region: Region) -> RenderedGeometry {
+        if let Some(rendered) = self.rendered.get() {
+            if rendered.region == region {
+                return rendered;
+            }
+        }
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        let content_region = self.content_region_for_scroll(inner_region);
+        let recompute = self.show_vertical_scrollbar() && content_region.width < inner_region.width;
+        RenderedGeometry {
+            region,
+            layout_region: if recompute {
+                content_region
+            } else {
+                inner_region
+            },
+            content_region,
+            viewport: region.into(),
+        }
     }
 
     fn show_vertical_scrollbar(&self) -> bool {
@@ -552,6 +564,17 @@ Screen {
                 (initial_placements, false)
             };
 
+        self.rendered.set(Some(RenderedGeometry {
+            region,
+            layout_region: if recomputed {
+                content_region
+            } else {
+                inner_region
+            },
+            content_region,
+            viewport,
+        }));
+
         let (final_virtual_width, final_virtual_height, _final_max_from_auto) = if recomputed {
             self.compute_virtual_size(&placements, content_region)
         } else {
@@ -777,10 +800,14 @@ Screen {
         }
 
         let inner_region = crate::containers::inner_region_for_container(region, &self.style);
-        let viewport = layouts::Viewport::from(region);
+        let RenderedGeometry {
+            layout_region,
+            content_region,
+            viewport,
+            ..
+        } = self.mouse_geometry(region);
 
         // Scrollbar interaction regions
-        let content_region = self.content_region_for_scroll(inner_region);
         let v_region = self.vertical_scrollbar_region(inner_region);
         let h_region = self.horizontal_scrollbar_region(inner_region);
         let render_vertical = self.render_vertical_scrollbar();
@@ -788,13 +815,6 @@ Screen {
         let on_vertical = render_vertical && v_region.contains_point(mx, my);
         let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
 
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
         // Keep scroll viewport in sync with current content region so max scroll bounds
         // match the visible area (especially when scrollbars consume space).
         {
@@ -823,7 +843,7 @@ Screen {
                     self.is_dirty = true;
                 }
 
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
                         .dispatch_mouse_to_children(event, layout_region, viewport)
                         .map(|(msg, _)| msg);
@@ -839,7 +859,7 @@ Screen {
                     self.handle_horizontal_scrollbar_click(event, h_region);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
                         .dispatch_mouse_to_children(event, layout_region, viewport)
                         .map(|(msg, _)| msg);
@@ -851,7 +871,7 @@ Screen {
                     self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
                         .dispatch_mouse_to_children(event, layout_region, viewport)
                         .map(|(msg, _)| msg);
@@ -863,7 +883,7 @@ Screen {
                     self.scrollbar_drag = None;
                     self.is_dirty = true;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
                         .dispatch_mouse_to_children(event, layout_region, viewport)
                         .map(|(msg, _)| msg);
@@ -929,28 +949,12 @@ Screen {
             }
         }
 
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some((msg, _sender)) = child.on_mouse_with_sender(event, scrolled_region)
-                    {
-                        return Some(msg);
-                    }
-                }
-            }
+        // Dispatch to the child drawn at the pointer
+        if !content_region.contains_point(mx, my) {
+            return None;
         }
-
-        None
+        self.dispatch_mouse_to_children(event, layout_region, viewport)
+            .map(|(msg, _)| msg)
     }
 
     fn on_mouse_with_sender(
@@ -966,10 +970,14 @@ Screen {
         }
 
         let inner_region = crate::containers::inner_region_for_container(region, &self.style);
-        let viewport = layouts::Viewport::from(region);
+        let RenderedGeometry {
+            layout_region,
+            content_region,
+            viewport,
+            ..
+        } = self.mouse_geometry(region);
 
         // Scrollbar interaction regions
-        let content_region = self.content_region_for_scroll(inner_region);
         let v_region = self.vertical_scrollbar_region(inner_region);
         let h_region = self.horizontal_scrollbar_region(inner_region);
         let render_vertical = self.render_vertical_scrollbar();
@@ -977,13 +985,6 @@ Screen {
         let on_vertical = render_vertical && v_region.contains_point(mx, my);
         let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
 
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
         // Keep scroll viewport in sync with current content region so max scroll bounds
         // match the visible area (especially when scrollbars consume space).
         {
@@ -1012,7 +1013,7 @@ Screen {
                     self.is_dirty = true;
                 }
 
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self.dispatch_mouse_to_children(event, layout_region, viewport);
                 }
                 return None;
@@ -1026,7 +1027,7 @@ Screen {
                     self.handle_horizontal_scrollbar_click(event, h_region);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self.dispatch_mouse_to_children(event, layout_region, viewport);
                 }
                 return None;
@@ -1036,7 +1037,7 @@ Screen {
                     self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self.dispatch_mouse_to_children(event, layout_region, viewport);
                 }
                 return None;
@@ -1046,7 +1047,7 @@ Screen {
                     self.scrollbar_drag = None;
                     self.is_dirty = true;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self.dispatch_mouse_to_children(event, layout_region, viewport);
                 }
                 return None;
@@ -1110,27 +1111,11 @@ Screen {
             }
         }
 
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some(result) = child.on_mouse_with_sender(event, scrolled_region) {
-                        return Some(result);
-                    }
-                }
-            }
+        // Dispatch to the child drawn at the pointer
+        if !content_region.contains_point(mx, my) {
+            return None;
         }
-
-        None
+        self.dispatch_mouse_to_children(event, layout_region, viewport)
     }
 
     fn set_hover(&mut self, is_hovered: bool) -> bool {
-- 
2.43.0


From 1ae010b7f8bc3527655a945cd313e0a24f8537d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:39 +0000
Subject: [PATCH 12/59] fix: scrollbars stay inside a container narrower than
 the bar

---
 crates/textual/src/containers/container.rs  | 8 ++++----
 crates/textual/src/containers/scrollable.rs | 8 ++++----
 crates/textual/src/widget/screen.rs         | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 58ae8a6..8795696 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -288,9 +288,9 @@ impl<M> Container<M> {
         };
 
         Region {
-            x: region.x + region.width - style.size.vertical as i32,
+            x: (region.x + region.width - style.size.vertical as i32).max(region.x),
             y: region.y,
-            width: style.size.vertical as i32,
+            width: (style.size.vertical as i32).min(region.width),
             height: (region.height - h_size).max(0),
         }
     }
@@ -306,9 +306,9 @@ impl<M> Container<M> {
 
         Region {
             x: region.x,
-            y: region.y + region.height - style.size.horizontal as i32,
+            y: (region.y + region.height - style.size.horizontal as i32).max(region.y),
             width: (region.width - v_size).max(0),
-            height: style.size.horizontal as i32,
+            height: (style.size.horizontal as i32).min(region.height),
         }
     }
 
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 28ed6df..21abd15 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -245,9 +245,9 @@ impl<M> ScrollableContainer<M> {
         };
 
         Region {
-            x: region.x + region.width - style.size.vertical as i32,
+            x: (region.x + region.width - style.size.vertical as i32).max(region.x),
             y: region.y,
-            width: style.size.vertical as i32,
+            width: (style.size.vertical as i32).min(region.width),
             height: (region.height - h_size).max(0),
         }
     }
@@ -272,9 +272,9 @@ impl<M> ScrollableContainer<M> {
 
         Region {
             x: region.x,
-            y: region.y + region.height - style.size.horizontal as i32,
+            y: (region.y + region.height - style.size.horizontal as i32).max(region.y),
             width: (region.width - v_size).max(0),
-            height: style.size.horizontal as i32,
+            height: (style.size.horizontal as i32).min(region.height),
         }
     }
 
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 74c4fd1..33c6b4c 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -324,9 +324,9 @@ impl<M> Screen<M> {
         };
 
         Region {
-            x: region.x + region.width - style.size.vertical as i32,
+            x: (region.x + region.width - style.size.vertical as i32).max(region.x),
             y: region.y,
-            width: style.size.vertical as i32,
+            width: (style.size.vertical as i32).min(region.width),
             height: (region.height - h_size).max(0),
         }
     }
@@ -341,9 +341,9 @@ impl<M> Screen<M> {
 
         Region {
             x: region.x,
-            y: region.y + region.height - style.size.horizontal as i32,
+            y: (region.y + region.height - style.size.horizontal as i32).max(region.y),
             width: (region.width - v_size).max(0),
-            height: style.size.horizontal as i32,
+            height: (style.size.horizontal as i32).min(region.height),
         }
     }
 
-- 
2.43.0


From b61bfe5c991cbf0961db1f1a37a1ca36ea3db90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:40 +0000
Subject: [PATCH 13/59] fix: border and padding wider than the widget are cut
 at the widget's edge

---
 crates/textual/src/render_cache.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 88f5598..cb6142f 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -416,6 +416,13 @@ impl RenderCache {
             }
         };
 
+        // Chrome wider than the widget is cut at the widget's own edge
+        let base_strip = if base_strip.cell_length() > width {
+            base_strip.crop(0, width)
+        } else {
+            base_strip
+        };
+
         // Apply outline as final overlay (outline renders ON TOP of content)
         self.apply_outline(base_strip, y, height, width)
     }
-- 
2.43.0


From 84f2835a5f9b96f47a27a5f4c54cba9ed5756b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:40 +0000
Subject: [PATCH 14/59] fix: container keeps its scroll offset when the
 scrollbar changes the layout

---
 crates/textual/src/containers/container.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 8795696..a59c393 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -870,6 +870,10 @@ Container {
             .unwrap_or(0);
 
         // Update scroll state with virtual size and viewport
+        let (previous_x, previous_y) = {
+            let scroll = self.scroll.borrow();
+            (scroll.offset_x, scroll.offset_y)
+        };
         {
             let mut scroll = self.scroll.borrow_mut();
             scroll.set_virtual_size(virtual_width, virtual_height);
@@ -918,6 +922,9 @@ Container {
             // Update scroll state with corrected virtual dimensions
             {
                 let mut scroll = self.scroll.borrow_mut();
+                // The first pass may have clamped against dimensions that do not apply
+                scroll.offset_x = previous_x;
+                scroll.offset_y = previous_y;
                 scroll.set_virtual_size(new_virtual_width, new_virtual_height);
                 scroll.set_viewport(content_region.width, content_region.height);
             }
-- 
2.43.0


From ac96767bf62583e7c94d4ce2cd60dedff37601e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:58 +0000
Subject: [PATCH 15/59] fix: focus follows the displayed focusable widgets
 after they are hidden, shown or disabled

---
 crates/textual/src/containers.rs            | 40 +++++++++----------
 crates/textual/src/containers/container.rs  |  4 +-
 crates/textual/src/containers/grid.rs       |  4 +-
 crates/textual/src/containers/item_grid.rs  |  4 +-
 crates/textual/src/containers/scrollable.rs |  4 +-
 crates/textual/src/lib.rs                   | 10 ++---
 crates/textual/src/tree.rs                  | 43 +++++++++++++++------
 crates/textual/src/widget/app_widget.rs     |  4 +-
 crates/textual/src/widget/screen.rs         |  4 +-
 9 files changed, 59 insertions(+), 58 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 443ebb6..89bbda7 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -131,7 +131,7 @@ impl<M> Center<M> {
 
 impl<M> Widget<M> for Center<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -145,7 +145,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.centered_region(region));
@@ -170,34 +170,32 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let centered = self.centered_region(region);
@@ -212,7 +210,7 @@ impl<M> Widget<M> for Center<M> {
         event: MouseEvent,
         region: Region,
     ) -> Option<(M, crate::widget::SenderInfo)> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let centered = self.centered_region(region);
@@ -223,7 +221,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_hover();
         }
     }
@@ -291,7 +289,7 @@ impl<M> Middle<M> {
 
 impl<M> Widget<M> for Middle<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -305,7 +303,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.middled_region(region));
@@ -330,34 +328,32 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let middled = self.middled_region(region);
@@ -372,7 +368,7 @@ impl<M> Widget<M> for Middle<M> {
         event: MouseEvent,
         region: Region,
     ) -> Option<(M, crate::widget::SenderInfo)> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let middled = self.middled_region(region);
@@ -383,7 +379,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_hover();
         }
     }
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index a59c393..9110f43 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1575,9 +1575,7 @@ Container {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index fd47518..1ad19bd 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -424,9 +424,7 @@ Grid {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index b0a3203..f1ce9a5 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -306,9 +306,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 21abd15..73982e4 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1372,9 +1372,7 @@ ScrollableContainer {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index cf6273d..548c258 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -791,13 +791,9 @@ pub trait App {
 
                 // If the currently focused widget is no longer focusable (e.g. hidden modal),
                 // fall back to the first available focusable widget.
-                if let Some(is_focusable) = tree.with_focused(|widget| widget.is_focusable()) {
-                    if !is_focusable {
-                        if tree.set_focus_index(0) {
-                            last_focus_index = self.focus_index();
-                            needs_render = true;
-                        }
-                    }
+                if !tree.has_live_focus() && tree.set_focus_index(0) {
+                    last_focus_index = self.focus_index();
+                    needs_render = true;
                 }
 
                 if needs_render {
diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 552e11c..9547bfe 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -138,7 +138,8 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
-        let next = (self.current_focus_index + 1) % count;
+        let (index, live) = self.focus_position();
+        let next = (if live { index + 1 } else { index }) % count;
         if self.set_focus_index(next) {
             Some(next)
         } else {
@@ -152,11 +153,8 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
-        let prev = if self.current_focus_index == 0 {
-            count - 1
-        } else {
-            self.current_focus_index - 1
-        };
+        let (index, _) = self.focus_position();
+        let prev = if index == 0 { count - 1 } else { index - 1 };
         if self.set_focus_index(prev) {
             Some(prev)
         } else {
@@ -164,15 +162,38 @@ impl<M> WidgetTree<M> {
         }
     }
 
+    /// Number of focusable widgets before the focused one, and whether that one can still
+    /// hold the focus (widgets may have been hidden or disabled since it was focused).
+    fn focus_position(&mut self) -> (usize, bool) {
+        let mut index = 0;
+        let mut current: &mut dyn Widget<M> = self.root.as_mut();
+        for &step in &self.focus_path.indices {
+            for i in 0..step {
+                if let Some(sibling) = current.get_child_mut(i) {
+                    if sibling.participates_in_layout() {
+                        index += sibling.count_focusable();
+                    }
+                }
+            }
+            match current.get_child_mut(step) {
+                Some(child) if child.participates_in_layout() => current = child,
+                _ => return (index, false),
+            }
+        }
+        (index, current.is_focusable())
+    }
+
+    /// Whether the focused widget is still there, displayed and focusable.
+    pub fn has_live_focus(&mut self) -> bool {
+        self.focus_position().1
+    }
+
     /// Update the focus path for a given focus index.
     ///
     /// This walks the tree to find the nth focusable widget and caches
     /// the path to it. Call this when focus changes.
     pub fn update_focus(&mut self, focus_index: usize) {
-        if focus_index == self.current_focus_index && !self.focus_path.indices.is_empty() {
-            return; // Path is already cached for this focus index
-        }
-
+        // The same index may denote another widget after visibility or focusability changes
         self.focus_path.clear();
         self.current_focus_index = focus_index;
 
@@ -543,7 +564,7 @@ fn find_focus_path_recursive<M>(
     for i in 0..child_count {
         path.push(i);
         if let Some(child) = widget.get_child_mut(i) {
-            if find_focus_path_recursive(child, path, remaining) {
+            if child.participates_in_layout() && find_focus_path_recursive(child, path, remaining) {
                 return true; // Found in this subtree
             }
         }
diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 9c0ef37..1d4c1e2 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -250,9 +250,7 @@ App {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 33c6b4c..0aaeba4 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -1180,9 +1180,7 @@ Screen {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
-- 
2.43.0


From 87c818115dd131016e04f0a663e3213948ce2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:05 +0000
Subject: [PATCH 16/59] fix: screen and app root do not hand bubbling messages
 back down to their children

---
 crates/textual/src/widget/app_widget.rs | 8 --------
 crates/textual/src/widget/screen.rs     | 9 ---------
 2 files changed, 17 deletions(-)

diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 1d4c1e2..1264960 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -216,14 +216,6 @@ App {
         any_changed
     }
 
-    fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-        let mut handled = None;
-        for child in &mut self.children {
-            handled = child.handle_message(envelope);
-        }
-        handled
-    }
-
     // Focus delegation
     fn count_focusable(&self) -> usize {
         self.children
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 0aaeba4..8dca405 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -1146,15 +1146,6 @@ Screen {
         changed
     }
 
-    fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-        for child in &mut self.children {
-            if let Some(msg) = child.handle_message(envelope) {
-                return Some(msg);
-            }
-        }
-        None
-    }
-
     // Focus delegation
     fn count_focusable(&self) -> usize {
         self.children
-- 
2.43.0


From d8dd7023c4c477b2c19b0432e01e47de46854119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:47 +0000
Subject: [PATCH 17/59] fix: boxed and delegating widgets forward classes,
 tooltips, inline styles and names

---
 crates/textual/src/macros.rs | 68 ++++++++++++++++++++++++++++++++++++
 crates/textual/src/widget.rs | 36 +++++++++++++++++--
 2 files changed, 101 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/macros.rs b/crates/textual/src/macros.rs
index 4ed56fe..ccf44b1 100644
--- a/crates/textual/src/macros.rs
+++ b/crates/textual/src/macros.rs
@@ -218,6 +218,74 @@ macro_rules! impl_widget_delegation {
             fn content_width_for_scroll(&self, available_width: u16) -> u16 {
                 self.$field.content_width_for_scroll(available_width)
             }
+
+            fn intrinsic_height_for_width(&self, width: u16) -> u16 {
+                self.$field.intrinsic_height_for_width(width)
+            }
+
+            fn participates_in_layout(&self) -> bool {
+                self.$field.participates_in_layout()
+            }
+
+            fn take_pending_action(&self) -> Option<String> {
+                self.$field.take_pending_action()
+            }
+
+            fn blocks_mouse_events(&self) -> bool {
+                self.$field.blocks_mouse_events()
+            }
+
+            fn tooltip(&self) -> Option<String> {
+                self.$field.tooltip()
+            }
+
+            fn set_tooltip(&mut self, tooltip: Option<String>) {
+                self.$field.set_tooltip(tooltip)
+            }
+
+            fn set_border_title(&mut self, title: &str) {
+                self.$field.set_border_title(title)
+            }
+
+            fn set_border_subtitle(&mut self, subtitle: &str) {
+                self.$field.set_border_subtitle(subtitle)
+            }
+
+            fn border_title(&self) -> Option<&str> {
+                self.$field.border_title()
+            }
+
+            fn border_subtitle(&self) -> Option<&str> {
+                self.$field.border_subtitle()
+            }
+
+            fn add_class(&mut self, class: &str) {
+                self.$field.add_class(class)
+            }
+
+            fn remove_class(&mut self, class: &str) {
+                self.$field.remove_class(class)
+            }
+
+            fn toggle_class(&mut self, class: &str) {
+                self.$field.toggle_class(class)
+            }
+
+            fn has_class(&self, class: &str) -> bool {
+                self.$field.has_class(class)
+            }
+
+            fn set_class(&mut self, add: bool, class: &str) {
+                self.$field.set_class(add, class)
+            }
+
+            fn set_classes(&mut self, classes: &str) {
+                self.$field.set_classes(classes)
+            }
+
+            fn classes(&self) -> Vec<String> {
+                self.$field.classes()
+            }
         }
     };
 }
diff --git a/crates/textual/src/widget.rs b/crates/textual/src/widget.rs
index 5fe2d87..6eb476d 100644
--- a/crates/textual/src/widget.rs
+++ b/crates/textual/src/widget.rs
@@ -607,6 +607,26 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
         self.as_mut().set_style(style);
     }
 
+    fn set_inline_style(&mut self, style: StyleOverride) {
+        self.as_mut().set_inline_style(style);
+    }
+
+    fn inline_style(&self) -> Option<&StyleOverride> {
+        self.as_ref().inline_style()
+    }
+
+    fn clear_inline_style(&mut self) {
+        self.as_mut().clear_inline_style();
+    }
+
+    fn tooltip(&self) -> Option<String> {
+        self.as_ref().tooltip()
+    }
+
+    fn set_tooltip(&mut self, tooltip: Option<String>) {
+        self.as_mut().set_tooltip(tooltip);
+    }
+
     fn default_css(&self) -> &'static str {
         self.as_ref().default_css()
     }
@@ -647,6 +667,18 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
         self.as_mut().on_mouse_with_sender(event, region)
     }
 
+    fn blocks_mouse_events(&self) -> bool {
+        self.as_ref().blocks_mouse_events()
+    }
+
+    fn set_focus(&mut self, is_focused: bool) {
+        self.as_mut().set_focus(is_focused);
+    }
+
+    fn is_focused(&self) -> bool {
+        self.as_ref().is_focused()
+    }
+
     fn set_hover(&mut self, is_hovered: bool) -> bool {
         self.as_mut().set_hover(is_hovered)
     }
@@ -724,9 +756,7 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
     }
 
     fn type_name(&self) -> &'static str {
-        // Box<dyn Widget> should delegate to inner widget's type_name
-        // but we can't call it through trait object, so return generic name
-        "Widget"
+        self.as_ref().type_name()
     }
 
     fn sender_info(&self) -> SenderInfo {
-- 
2.43.0


From f895a9e62bf6331a6ea3a1bdcc80640a5a74d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:45 +0000
Subject: [PATCH 18/59] fix: focus position counts focusable containers on the
 way to the focused widget

---
 crates/textual/src/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 9547bfe..cefb16d 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -168,6 +168,9 @@ impl<M> WidgetTree<M> {
         let mut index = 0;
         let mut current: &mut dyn Widget<M> = self.root.as_mut();
         for &step in &self.focus_path.indices {
+            if current.is_focusable() {
+                index += 1;
+            }
             for i in 0..step {
                 if let Some(sibling) = current.get_child_mut(i) {
                     if sibling.participates_in_layout() {
-- 
2.43.0


From c1cf96137136615915c9f79b378624f61d41ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:03 +0000
Subject: [PATCH 19/59] fix: set_visible and set_disabled take effect on
 static, button, option list and container widgets

---
 crates/textual/src/containers/container.rs  | 13 +++++++++++++
 crates/textual/src/containers/grid.rs       | 13 +++++++++++++
 crates/textual/src/containers/item_grid.rs  | 13 +++++++++++++
 crates/textual/src/containers/scrollable.rs | 13 +++++++++++++
 crates/textual/src/widget/button.rs         | 10 +++++++++-
 crates/textual/src/widget/option_list.rs    |  7 +++++--
 crates/textual/src/widget/static_widget.rs  | 13 +++++++++++++
 7 files changed, 79 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 9110f43..ba71339 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -60,6 +60,7 @@ pub struct Container<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    visible: bool,
     id: Option<String>,
     /// CSS classes for styling.
     classes: Vec<String>,
@@ -95,6 +96,7 @@ impl<M> Container<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             id: None,
             classes: Vec::new(),
             border_title: None,
@@ -1438,6 +1440,17 @@ Container {
         *self.cached_layout.borrow_mut() = None;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 1ad19bd..113c2de 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -47,6 +47,7 @@ pub struct Grid<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    visible: bool,
     /// Viewport of the last render, so that mouse events see the layout that was drawn
     last_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
@@ -60,6 +61,7 @@ impl<M> Grid<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             last_viewport: Cell::new(None),
             id: None,
         }
@@ -326,6 +328,17 @@ Grid {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index f1ce9a5..577dd13 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -36,6 +36,7 @@ pub struct ItemGrid<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    visible: bool,
     /// Viewport of the last render, so that mouse events see the layout that was drawn
     last_viewport: Cell<Option<layouts::Viewport>>,
     id: Option<String>,
@@ -56,6 +57,7 @@ impl<M> ItemGrid<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             last_viewport: Cell::new(None),
             id: None,
             min_column_width: None,
@@ -210,6 +212,17 @@ impl<M> Widget<M> for ItemGrid<M> {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 73982e4..dee3afa 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -46,6 +46,7 @@ pub struct ScrollableContainer<M> {
     inline_style: StyleOverride,
     /// Dirty flag
     dirty: bool,
+    visible: bool,
     /// Scrollbar interaction state: None, Some(vertical: bool)
     scrollbar_hover: Option<bool>,
     /// Scrollbar being dragged: None, Some((vertical, grab_offset))
@@ -76,6 +77,7 @@ impl<M> ScrollableContainer<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             scrollbar_hover: None,
             scrollbar_drag: None,
             last_viewport: Cell::new(None),
@@ -836,6 +838,17 @@ ScrollableContainer {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty || self.children.iter().any(|c| c.is_dirty())
     }
diff --git a/crates/textual/src/widget/button.rs b/crates/textual/src/widget/button.rs
index 465a7cf..be7b7e1 100644
--- a/crates/textual/src/widget/button.rs
+++ b/crates/textual/src/widget/button.rs
@@ -526,8 +526,16 @@ Button {
         }
     }
 
+    fn is_visible(&self) -> bool {
+        self.inner.is_visible()
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        self.inner.set_visible(visible);
+    }
+
     fn is_focusable(&self) -> bool {
-        !self.inner.is_disabled()
+        self.is_visible() && !self.inner.is_disabled()
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
diff --git a/crates/textual/src/widget/option_list.rs b/crates/textual/src/widget/option_list.rs
index ab89dc6..967bf05 100644
--- a/crates/textual/src/widget/option_list.rs
+++ b/crates/textual/src/widget/option_list.rs
@@ -69,6 +69,7 @@ impl From<(String, bool)> for OptionItem {
 /// A list widget that highlights the selected item.
 pub struct OptionList<M> {
     inner: Container<M>,
+    list_disabled: bool,
     items: Vec<String>,
     disabled: Vec<bool>,
     line_counts: Vec<usize>,
@@ -91,6 +92,7 @@ impl<M: 'static> OptionList<M> {
             line_counts: Vec::new(),
             selected: 0,
             focused: false,
+            list_disabled: false,
             dirty: true,
             allow_markup: false,
             last_width: None,
@@ -454,11 +456,12 @@ OptionList > .option-list--option {
     }
 
     fn is_disabled(&self) -> bool {
-        self.inner.is_disabled()
+        self.list_disabled
     }
 
     fn set_disabled(&mut self, disabled: bool) {
-        self.inner.set_disabled(disabled);
+        self.list_disabled = disabled;
+        self.dirty = true;
     }
 
     fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index cb0365a..350a965 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -84,6 +84,7 @@ pub struct Static<M> {
     style: ComputedStyle,
     inline_style: StyleOverride,
     dirty: bool,
+    visible: bool,
     /// Title displayed in the top border (supports markup).
     border_title: Option<String>,
     /// Subtitle displayed in the bottom border (supports markup).
@@ -116,6 +117,7 @@ impl<M> Default for Static<M> {
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
+            visible: true,
             border_title: None,
             border_subtitle: None,
             link_regions: RefCell::new(Vec::new()),
@@ -904,6 +906,17 @@ Static {
         self.dirty = true;
     }
 
+    fn is_visible(&self) -> bool {
+        self.visible
+    }
+
+    fn set_visible(&mut self, visible: bool) {
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
-- 
2.43.0


From 90e6e1fb7428f0833294151db88b5729f69ddaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:26 +0000
Subject: [PATCH 20/59] fix: adding a class to a static, label, input or button
 twice keeps one copy and restyles it

---
 crates/textual/src/widget/static_widget.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index 350a965..facc9ea 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -165,7 +165,11 @@ impl<M> Static<M> {
 
     /// Add a single CSS class.
     pub fn add_class(&mut self, class: impl Into<String>) {
-        self.classes.push(class.into());
+        let class = class.into();
+        if !self.classes.contains(&class) {
+            self.classes.push(class);
+            self.dirty = true;
+        }
     }
 
     /// Set whether the widget expands to fill available space.
-- 
2.43.0


From a7088c85edb301105896b74837c4cc3f3774b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 21/59] fix: a descendant selector matches when any choice of
 ancestors satisfies it

---
 crates/tcss/src/parser/cascade.rs | 92 ++++++++++---------------------
 1 file changed, 29 insertions(+), 63 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index a4fb433..4285b9a 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -27,7 +27,8 @@ use bitflags::bitflags;
 
 use crate::{
     parser::{
-        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, Specificity, StyleSheet,
+        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, SelectorPart,
+        Specificity, StyleSheet,
     },
     types::{Border, ComputedStyle, RgbaColor, Theme},
 };
@@ -157,73 +158,38 @@ impl WidgetMeta {
         }
 
         // The rightmost part must match the widget itself.
-        let parts = &complex.parts;
-        let mut current_part_idx = parts.len() - 1;
+        self.matches_compound(&complex.parts[complex.parts.len() - 1], ctx)
+            && matches_ancestors(&complex.parts[..complex.parts.len() - 1], ancestors, ctx)
+    }
 
-        if !parts[current_part_idx]
-            .compound
+    /// Returns true if the widget satisfies every simple selector of the part's compound.
+    fn matches_compound(&self, part: &SelectorPart, ctx: &SelectorContext) -> bool {
+        part.compound
             .selectors
             .iter()
             .all(|s| self.matches_selector(s, ctx))
-        {
-            return false;
-        }
-
-        // If that was the only part, we matched.
-        if parts.len() == 1 {
-            return true;
-        }
-
-        // Match remaining parts against ancestors.
-        let mut ancestor_idx = 0;
-        current_part_idx -= 1;
-
-        while current_part_idx < parts.len() && ancestor_idx < ancestors.len() {
-            let part = &parts[current_part_idx];
-            let ancestor = &ancestors[ancestor_idx];
-
-            let matches = part
-                .compound
-                .selectors
-                .iter()
-                .all(|s| ancestor.matches_selector(s, ctx));
-
-            match part.combinator {
-                Combinator::Child => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    } else {
-                        return false;
-                    }
-                    ancestor_idx += 1;
-                }
-                Combinator::Descendant | Combinator::None => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    }
-                    ancestor_idx += 1;
-                }
-                // FIX: Add explicit return to satisfy type checker
-                Combinator::AdjacentSibling | Combinator::GeneralSibling => {
-                    return false;
-                }
-            }
-        }
+    }
+}
 
-        current_part_idx == usize::MAX
-            || current_part_idx == 0
-                && ancestor_idx < ancestors.len()
-                && parts[0]
-                    .compound
-                    .selectors
-                    .iter()
-                    .all(|s| ancestors[ancestor_idx].matches_selector(s, ctx))
+/// Matches the remaining parts of a selector (right to left) against the ancestors
+/// (immediate parent first). A descendant part may be satisfied by any ancestor, so
+/// every candidate is tried.
+fn matches_ancestors(
+    parts: &[SelectorPart],
+    ancestors: &[WidgetMeta],
+    ctx: &SelectorContext,
+) -> bool {
+    let Some((part, rest)) = parts.split_last() else {
+        return true;
+    };
+    let matches_at = |idx: usize| {
+        ancestors[idx].matches_compound(part, ctx)
+            && matches_ancestors(rest, &ancestors[idx + 1..], ctx)
+    };
+    match part.combinator {
+        Combinator::Child => !ancestors.is_empty() && matches_at(0),
+        Combinator::Descendant | Combinator::None => (0..ancestors.len()).any(matches_at),
+        Combinator::AdjacentSibling | Combinator::GeneralSibling => false,
     }
 }
 
-- 
2.43.0


From 4ec8dbadc0c0cc5b366d3ede8cc5ecf8de4fd81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:08 +0000
Subject: [PATCH 22/59] fix: a rule takes the highest specificity among its
 matching selectors

---
 crates/tcss/src/parser/cascade.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index 4285b9a..2720e74 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -205,16 +205,20 @@ pub fn compute_style(
 
     // 1. Find all matching rules
     for (idx, rule) in stylesheet.rules.iter().enumerate() {
-        for complex in &rule.selectors.selectors {
-            if widget.matches_complex(complex, ancestors, &ctx) {
-                matched_rules.push(MatchedRule {
-                    specificity: complex.specificity(),
-                    source_order: idx,
-                    rule,
-                });
-                // Once one selector in a rule matches, the whole rule applies.
-                break;
-            }
+        // The rule applies once, with the highest specificity among its matching selectors.
+        let specificity = rule
+            .selectors
+            .selectors
+            .iter()
+            .filter(|complex| widget.matches_complex(complex, ancestors, &ctx))
+            .map(|complex| complex.specificity())
+            .max();
+        if let Some(specificity) = specificity {
+            matched_rules.push(MatchedRule {
+                specificity,
+                source_order: idx,
+                rule,
+            });
         }
     }
 
-- 
2.43.0


From daa993902d13dc3f15e15f7b585eb0d662b24729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:09 +0000
Subject: [PATCH 23/59] fix: an unknown declaration ends at its own semicolon
 or closing brace

---
 crates/tcss/src/parser/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/tcss/src/parser/mod.rs b/crates/tcss/src/parser/mod.rs
index 284b6ed..44fb814 100644
--- a/crates/tcss/src/parser/mod.rs
+++ b/crates/tcss/src/parser/mod.rs
@@ -407,7 +407,5 @@ fn take_until_balanced_braces(input: &str) -> IResult<&str, &str> {
 }
 
 fn take_until_semicolon_or_brace(input: &str) -> IResult<&str, &str> {
-    nom::bytes::complete::take_until(";")(input).or_else(|_: nom::Err<nom::error::Error<&str>>| {
-        nom::bytes::complete::take_until("}")(input)
-    })
+    nom::bytes::complete::take_till(|c| c == ';' || c == '}')(input)
 }
-- 
2.43.0


From 6cff6f92116193bef912e2b1bfdb20f7b82fc9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:09 +0000
Subject: [PATCH 24/59] fix: stylesheet variables may refer to earlier ones,
 carry comments and start a continued line

---
 crates/tcss/src/parser/variables.rs | 110 +++++++++++++++-------------
 1 file changed, 58 insertions(+), 52 deletions(-)

diff --git a/crates/tcss/src/parser/variables.rs b/crates/tcss/src/parser/variables.rs
index c7bed1c..8cfdabb 100644
--- a/crates/tcss/src/parser/variables.rs
+++ b/crates/tcss/src/parser/variables.rs
@@ -55,10 +55,23 @@ impl StylesheetVariables {
     }
 }
 
-pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<String, TcssError> {
-    let mut output = String::new();
+/// Splits a `$name: value;` definition line into its name and value.
+///
+/// Returns `None` for any other line, including one that merely starts with a
+/// variable reference (a value continued from the previous line).
+fn parse_definition(line: &str) -> Option<(&str, &str)> {
+    let (name, value) = line.trim().strip_prefix('$')?.split_once(':')?;
+    let name = name.trim();
+    let is_name_char = |c: char| c.is_alphanumeric() || c == '-' || c == '_';
+    if name.is_empty() || !name.chars().all(is_name_char) {
+        return None;
+    }
+    let value = value.trim();
+    Some((name, value.strip_suffix(';').unwrap_or(value)))
+}
 
-    // Pass 1: Strip Block Comments entirely before processing
+/// Removes block comments (`/* */`) from the source.
+fn strip_comments(source: &str) -> String {
     let mut clean_source = String::new();
     let mut chars = source.chars().peekable();
     while let Some(c) = chars.next() {
@@ -74,38 +87,49 @@ pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<Str
         }
         clean_source.push(c);
     }
+    clean_source
+}
 
-    // Pass 2: Resolve variables line by line
-    for line in clean_source.lines() {
-        let trimmed = line.trim();
-        // Skip definition lines - they shouldn't be resolved or included in final CSS
-        if trimmed.starts_with('$') {
-            continue;
-        }
-
-        let mut resolved_line = String::new();
-        let mut line_chars = line.chars().peekable();
-        while let Some(c) = line_chars.next() {
-            if c == '$' {
-                let mut name = String::new();
-                while let Some(&next) = line_chars.peek() {
-                    if next.is_alphanumeric() || next == '-' || next == '_' {
-                        name.push(line_chars.next().unwrap());
-                    } else {
-                        break;
-                    }
-                }
-                if let Some(val) = vars.resolve(&name) {
-                    resolved_line.push_str(&val);
+/// Replaces every defined `$name` reference in a line with its value.
+fn resolve_line(line: &str, vars: &StylesheetVariables) -> String {
+    let mut resolved_line = String::new();
+    let mut line_chars = line.chars().peekable();
+    while let Some(c) = line_chars.next() {
+        if c == '$' {
+            let mut name = String::new();
+            while let Some(&next) = line_chars.peek() {
+                if next.is_alphanumeric() || next == '-' || next == '_' {
+                    name.push(line_chars.next().unwrap());
                 } else {
-                    resolved_line.push('$');
-                    resolved_line.push_str(&name);
+                    break;
                 }
+            }
+            if let Some(val) = vars.resolve(&name) {
+                resolved_line.push_str(&val);
             } else {
-                resolved_line.push(c);
+                resolved_line.push('$');
+                resolved_line.push_str(&name);
             }
+        } else {
+            resolved_line.push(c);
         }
-        output.push_str(&resolved_line);
+    }
+    resolved_line
+}
+
+pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<String, TcssError> {
+    let mut output = String::new();
+
+    // Pass 1: Strip Block Comments entirely before processing
+    let clean_source = strip_comments(source);
+
+    // Pass 2: Resolve variables line by line
+    for line in clean_source.lines() {
+        // Skip definition lines - they shouldn't be resolved or included in final CSS
+        if parse_definition(line).is_some() {
+            continue;
+        }
+        output.push_str(&resolve_line(line, vars));
         output.push('\n');
     }
 
@@ -114,29 +138,11 @@ pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<Str
 
 pub fn extract_variables(source: &str) -> StylesheetVariables {
     let mut vars = StylesheetVariables::new();
-    let mut in_comment = false;
-    for line in source.lines() {
-        let trimmed = line.trim();
-        if trimmed.contains("/*") {
-            in_comment = true;
-        }
-        if trimmed.contains("*/") {
-            in_comment = false;
-            continue;
-        }
-        if in_comment {
-            continue;
-        }
-
-        if trimmed.starts_with('$') {
-            if let Some(colon_idx) = trimmed.find(':') {
-                let name = trimmed[1..colon_idx].trim().to_string();
-                let mut value = trimmed[colon_idx + 1..].trim();
-                if value.ends_with(';') {
-                    value = &value[..value.len() - 1];
-                }
-                vars.define(name, value.to_string());
-            }
+    for line in strip_comments(source).lines() {
+        if let Some((name, value)) = parse_definition(line) {
+            // A value may refer to variables defined earlier
+            let value = resolve_line(value, &vars);
+            vars.define(name.to_string(), value);
         }
     }
     vars
-- 
2.43.0


From b500d80d9c03fa057c4635e3868cf75daaee8167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:52 +0000
Subject: [PATCH 25/59] fix: center and middle keep the style computed for them

---
 crates/textual/src/containers.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 89bbda7..8a4e4db 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -82,6 +82,7 @@ fn inner_region_from_cache(
 /// Centered horizontally
 pub struct Center<M> {
     children: Vec<Box<dyn Widget<M>>>,
+    style: ComputedStyle,
     dirty: bool,
 }
 
@@ -98,6 +99,7 @@ impl<M> Center<M> {
         );
         Self {
             children,
+            style: ComputedStyle::default(),
             dirty: true, // Start dirty so initial styles are computed
         }
     }
@@ -157,6 +159,14 @@ impl<M> Widget<M> for Center<M> {
         }
     }
 
+    fn set_style(&mut self, style: ComputedStyle) {
+        self.style = style;
+    }
+
+    fn get_style(&self) -> ComputedStyle {
+        self.style.clone()
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
@@ -240,6 +250,7 @@ impl<M> Widget<M> for Center<M> {
 /// Centered vertically
 pub struct Middle<M> {
     children: Vec<Box<dyn Widget<M>>>,
+    style: ComputedStyle,
     dirty: bool,
 }
 
@@ -256,6 +267,7 @@ impl<M> Middle<M> {
         );
         Self {
             children,
+            style: ComputedStyle::default(),
             dirty: true, // Start dirty so initial styles are computed
         }
     }
@@ -315,6 +327,14 @@ impl<M> Widget<M> for Middle<M> {
         }
     }
 
+    fn set_style(&mut self, style: ComputedStyle) {
+        self.style = style;
+    }
+
+    fn get_style(&self) -> ComputedStyle {
+        self.style.clone()
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
-- 
2.43.0


From 159f22e4923c3b0ff5c2873e04166f66cad8d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:52 +0000
Subject: [PATCH 26/59] fix: an inline color replaces an automatic color from
 the stylesheet

---
 crates/tcss/src/types/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tcss/src/types/mod.rs b/crates/tcss/src/types/mod.rs
index 74b104b..1d58ff9 100644
--- a/crates/tcss/src/types/mod.rs
+++ b/crates/tcss/src/types/mod.rs
@@ -230,6 +230,7 @@ impl StyleOverride {
         }
         if let Some(color) = &self.color {
             style.color = Some(color.clone());
+            style.auto_color = color.auto;
         }
     }
 }
-- 
2.43.0


From bf65661f623e7077fdd18de9bc1a5d0b0e068a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 27/59] fix: widget default styles are combined in a fixed
 order, base types first

---
 crates/textual/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 548c258..7287298 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -35,7 +35,7 @@ pub use crossterm::event::{
 use crossterm::{cursor, execute, terminal};
 use futures::StreamExt;
 use std::cell::Cell;
-use std::collections::{HashSet, VecDeque};
+use std::collections::VecDeque;
 use std::time::{Duration, Instant};
 use tokio::sync::mpsc;
 
@@ -117,10 +117,10 @@ use crate::{
 /// Walks the widget tree and collects unique `default_css()` strings from all widgets.
 /// These are prepended to the app's CSS to ensure widget defaults are applied with
 /// lower specificity than app-level styles.
-fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'static str>) {
+fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<(usize, &'static str)>) {
     let default_css = widget.default_css();
-    if !default_css.is_empty() {
-        collected.insert(default_css);
+    if !default_css.is_empty() && !collected.iter().any(|(_, css)| *css == default_css) {
+        collected.push((widget.get_meta().type_names.len(), default_css));
     }
     widget.for_each_child(&mut |child| {
         collect_default_css(child, collected);
@@ -131,17 +131,19 @@ fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'
 ///
 /// Widget default CSS is prepended (lower specificity), so app CSS can override.
 fn build_combined_css<M: 'static>(root: &mut dyn Widget<M>, app_css: &str) -> String {
-    let mut defaults: HashSet<&'static str> = HashSet::new();
+    let mut defaults: Vec<(usize, &'static str)> = Vec::new();
     collect_default_css(root, &mut defaults);
+    // Base types come first, so that a subclass overrides what it inherits
+    defaults.sort_by_key(|(depth, _)| *depth);
 
-    // Concatenate defaults (order doesn't matter, app CSS will override)
+    // Concatenate defaults (app CSS comes last and overrides them)
     let mut combined = String::new();
 
     // First add base widget CSS (universal defaults like scrollbar and link styling)
     combined.push_str(widget::screen::Screen::<M>::base_widget_css());
     combined.push('\n');
 
-    for css in defaults {
+    for (_, css) in defaults {
         combined.push_str(css);
         combined.push('\n');
     }
-- 
2.43.0


From c2a49813ccde3c2ada77a2cc7518069ed3921979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:54 +0000
Subject: [PATCH 28/59] fix: option list clicks select the option drawn at the
 pointer

---
 crates/textual/src/containers/container.rs |  2 +-
 crates/textual/src/widget/option_list.rs   | 25 +++-------------------
 2 files changed, 4 insertions(+), 23 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index ba71339..b9ccaf9 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -191,7 +191,7 @@ impl<M> Container<M> {
     }
 
     /// The child drawn on top at a point, with the region it was drawn in.
-    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<WidgetPlacement> {
+    pub(crate) fn child_at(&self, region: Region, column: i32, row: i32) -> Option<WidgetPlacement> {
         let geometry = match self.rendered.get() {
             Some(rendered) if rendered.region == region => rendered,
             _ => {
diff --git a/crates/textual/src/widget/option_list.rs b/crates/textual/src/widget/option_list.rs
index 967bf05..6b0e221 100644
--- a/crates/textual/src/widget/option_list.rs
+++ b/crates/textual/src/widget/option_list.rs
@@ -72,7 +72,6 @@ pub struct OptionList<M> {
     list_disabled: bool,
     items: Vec<String>,
     disabled: Vec<bool>,
-    line_counts: Vec<usize>,
     selected: usize,
     focused: bool,
     dirty: bool,
@@ -89,7 +88,6 @@ impl<M: 'static> OptionList<M> {
             inner,
             items,
             disabled: Vec::new(),
-            line_counts: Vec::new(),
             selected: 0,
             focused: false,
             list_disabled: false,
@@ -225,12 +223,6 @@ impl<M: 'static> OptionList<M> {
     }
 
     fn refresh_display(&mut self) {
-        self.line_counts = self
-            .items
-            .iter()
-            .map(|item| item.split('\n').count().max(1))
-            .collect();
-
         let mut children: Vec<Box<dyn Widget<M>>> = Vec::with_capacity(self.items.len().max(1));
         for (index, item) in self.items.iter().enumerate() {
             let content = if self.allow_markup {
@@ -280,17 +272,6 @@ impl<M: 'static> OptionList<M> {
             }
         }
     }
-
-    fn index_for_row(&self, row: usize) -> Option<usize> {
-        let mut remaining = row;
-        for (index, count) in self.line_counts.iter().enumerate() {
-            if remaining < *count {
-                return Some(index);
-            }
-            remaining = remaining.saturating_sub(*count);
-        }
-        None
-    }
 }
 
 impl<M: 'static> Widget<M> for OptionList<M> {
@@ -351,9 +332,9 @@ OptionList > .option-list--option {
 
         match event.kind {
             MouseEventKind::Up(crossterm::event::MouseButton::Left) => {
-                let local_y = (my - region.y) as usize;
-                if let Some(index) = self.index_for_row(local_y) {
-                    if !self.disabled_at(index) {
+                if let Some(hit) = self.inner.child_at(region, mx, my) {
+                    let index = hit.child_index;
+                    if index < self.items.len() && !self.disabled_at(index) {
                         if self.selected != index {
                             self.selected = index;
                             self.refresh_display();
-- 
2.43.0


From a0ac6f91393ae1423a537ba9e99037da6cad6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:54 +0000
Subject: [PATCH 29/59] fix: a button released elsewhere does not stay pressed

---
 crates/textual/src/widget/button.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/widget/button.rs b/crates/textual/src/widget/button.rs
index be7b7e1..cd8c856 100644
--- a/crates/textual/src/widget/button.rs
+++ b/crates/textual/src/widget/button.rs
@@ -514,6 +514,10 @@ Button {
             self.hovered = false;
             self.dirty = true;
         }
+        if self.active {
+            self.active = false;
+            self.dirty = true;
+        }
     }
 
     fn set_active(&mut self, is_active: bool) -> bool {
-- 
2.43.0


From c5ae1ea1fc438c05d11d3ba2ff11747cb94144ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:07 +0000
Subject: [PATCH 30/59] fix: the header icon does not stay pressed when
 released elsewhere

---
 crates/textual/src/widget/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/widget/header.rs b/crates/textual/src/widget/header.rs
index 3c19e8d..e4efe73 100644
--- a/crates/textual/src/widget/header.rs
+++ b/crates/textual/src/widget/header.rs
@@ -534,6 +534,10 @@ HeaderIcon:hover {
             self.hovered = false;
             self.inner.mark_dirty();
         }
+        if self.active {
+            self.active = false;
+            self.inner.mark_dirty();
+        }
     }
 
     fn set_active(&mut self, is_active: bool) -> bool {
-- 
2.43.0


From 7dd609698a3eee2aaf21ac2891775a6f47a821e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:12 +0000
Subject: [PATCH 31/59] fix: a colour function with its parentheses reversed is
 an error, not a panic

---
 crates/tcss/src/types/color.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index f407041..a7d249e 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -531,11 +531,12 @@ impl RgbaColor {
         let start = input.find('(').ok_or_else(|| ColorParseError {
             message: "missing '(' in rgb function".to_string(),
         })?;
-        let end = input.find(')').ok_or_else(|| ColorParseError {
+        let rest = &input[start + 1..];
+        let end = rest.find(')').ok_or_else(|| ColorParseError {
             message: "missing ')' in rgb function".to_string(),
         })?;
 
-        let content = &input[start + 1..end];
+        let content = &rest[..end];
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
 
         if parts.len() < 3 {
@@ -562,11 +563,12 @@ impl RgbaColor {
         let start = input.find('(').ok_or_else(|| ColorParseError {
             message: "missing '(' in hsl function".to_string(),
         })?;
-        let end = input.find(')').ok_or_else(|| ColorParseError {
+        let rest = &input[start + 1..];
+        let end = rest.find(')').ok_or_else(|| ColorParseError {
             message: "missing ')' in hsl function".to_string(),
         })?;
 
-        let content = &input[start + 1..end];
+        let content = &rest[..end];
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
 
         if parts.len() < 3 {
-- 
2.43.0


From 4a5a9caac74d66d7b744779b340ca3e5a3dc2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:12 +0000
Subject: [PATCH 32/59] fix: hsl hues beyond one turn wrap around

---
 crates/tcss/src/types/color.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index a7d249e..cf998ee 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -718,7 +718,7 @@ impl RgbaColor {
 
     /// Creates an RgbaColor from HSL values.
     pub fn from_hsl(h: f32, s: f32, l: f32, a: f32) -> Self {
-        let h = h / 360.0;
+        let h = (h / 360.0).rem_euclid(1.0);
         let (r, g, b) = if s == 0.0 {
             (l, l, l)
         } else {
@@ -749,7 +749,7 @@ impl RgbaColor {
             return (gray, gray, gray);
         }
 
-        let h = h / 360.0;
+        let h = (h / 360.0).rem_euclid(1.0);
         let q = if l < 0.5 {
             l * (1.0 + s)
         } else {
-- 
2.43.0


From 26a3608fe056451088c7a860be28aa46975d32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:26 +0000
Subject: [PATCH 33/59] fix: keys and posted messages are drawn at once

---
 crates/textual/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 7287298..7d75130 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -884,16 +884,15 @@ pub trait App {
                                     )
                                     .unwrap_or(false);
                                 // Global focus navigation (Tab / Shift+Tab)
-                                let mut focus_changed = false;
                                 match key_event.code {
                                     KeyCode::Tab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_next().is_some();
+                                            tree.focus_next();
                                         }
                                     }
                                     KeyCode::BackTab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_previous().is_some();
+                                            tree.focus_previous();
                                         }
                                     }
                                     _ => {}
@@ -944,7 +943,8 @@ pub trait App {
                                 let _ = drain_command_palette(self, &mut tree, &tx);
                                 // Check if app wants tree rebuild (Elm-style)
                                 needs_recompose = self.needs_recompose();
-                                needs_render = needs_render || focus_changed;
+                                // Any key may have changed a widget or, through a handler, the tree
+                                needs_render = true;
                             }
                             Some(Ok(Event::Resize(nw, nh))) => {
                                 // Handle terminal window resizing
@@ -1098,9 +1098,9 @@ pub trait App {
                         let event_ctx = AppContext::new(tx.clone());
                         let mut ctx = EventContext::new(event_ctx, &mut tree);
                         self.handle_message(envelope, &mut ctx);
-                        if drain_command_palette(self, &mut tree, &tx) {
-                            needs_render = true;
-                        }
+                        let _ = drain_command_palette(self, &mut tree, &tx);
+                        // The handler may have changed the tree
+                        needs_render = true;
                         // Check if app wants tree rebuild (Elm-style)
                         needs_recompose = self.needs_recompose();
                     }
-- 
2.43.0


From 5220f438df8adab68518b20a7bda3ba649e37423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:40 +0000
Subject: [PATCH 34/59] fix: the first tooltip is centred under the pointer
 like later ones

---
 crates/textual/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 7d75130..c2b6d4d 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -828,11 +828,25 @@ pub trait App {
                                 if let (Some(text), Some((mx, my))) =
                                     (tooltip_text.clone(), last_mouse_pos)
                                 {
+                                    // A hidden tooltip has no styles yet: its width is known
+                                    // only once it has been shown and styled.
+                                    tree.query_one_as::<Tooltip<Self::Message>, _, _>(
+                                        "Tooltip",
+                                        |tooltip| tooltip.show(text),
+                                    );
+                                    let mut ancestors = VecDeque::new();
+                                    resolve_dirty_styles(
+                                        tree.root_mut(),
+                                        &stylesheet,
+                                        &theme,
+                                        &mut ancestors,
+                                        false,
+                                        &InheritedContext::from_theme(&theme),
+                                    );
                                     if let Some(()) =
                                         tree.query_one_as::<Tooltip<Self::Message>, _, _>(
                                             "Tooltip",
                                             |tooltip| {
-                                                tooltip.show(text);
                                                 let tooltip_width =
                                                     tooltip.desired_size().width as i32;
                                                 let mut x = mx - (tooltip_width / 2);
-- 
2.43.0


From 12bf28fd55cf55c00730411bbef5a11936ca6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:40 +0000
Subject: [PATCH 35/59] fix: closing the palette restores the focus after
 visibility changes

---
 crates/textual/src/context.rs |  2 +-
 crates/textual/src/tree.rs    | 11 +++--------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/textual/src/context.rs b/crates/textual/src/context.rs
index 7be3f27..f15f829 100644
--- a/crates/textual/src/context.rs
+++ b/crates/textual/src/context.rs
@@ -427,7 +427,7 @@ impl<'a, M: 'static> EventContext<'a, M> {
     }
 
     /// Return the current focus index tracked by the widget tree.
-    pub fn current_focus_index(&self) -> usize {
+    pub fn current_focus_index(&mut self) -> usize {
         self.tree.current_focus_index()
     }
 
diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index cefb16d..ec173f0 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -63,8 +63,6 @@ pub struct WidgetTree<M> {
     root: Box<dyn Widget<M>>,
     /// Cached path from root to the focused widget.
     focus_path: FocusPath,
-    /// The focus index that was used to compute the current path.
-    current_focus_index: usize,
 }
 
 impl<M> WidgetTree<M> {
@@ -73,7 +71,6 @@ impl<M> WidgetTree<M> {
         Self {
             root,
             focus_path: FocusPath::new(),
-            current_focus_index: 0,
         }
     }
 
@@ -92,9 +89,9 @@ impl<M> WidgetTree<M> {
         &self.focus_path
     }
 
-    /// Get the current focus index tracked by the tree.
-    pub fn current_focus_index(&self) -> usize {
-        self.current_focus_index
+    /// Get the index of the focused widget among the widgets that can take the focus now.
+    pub fn current_focus_index(&mut self) -> usize {
+        self.focus_position().0
     }
 
     /// Count how many focusable widgets exist in the tree.
@@ -116,7 +113,6 @@ impl<M> WidgetTree<M> {
         let count = self.focusable_count();
         if count == 0 {
             self.focus_path.clear();
-            self.current_focus_index = 0;
             self.root.clear_focus();
             return false;
         }
@@ -198,7 +194,6 @@ impl<M> WidgetTree<M> {
     pub fn update_focus(&mut self, focus_index: usize) {
         // The same index may denote another widget after visibility or focusability changes
         self.focus_path.clear();
-        self.current_focus_index = focus_index;
 
         // Walk the tree to find the path to the nth focusable widget
         let mut remaining = focus_index;
-- 
2.43.0


From 822e8251baa8368cfebb53a7ef0cc038ff2e6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 36/59] fix: inner markup styles go over those of the tags
 around them

---
 crates/rich/src/parser/markup.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rich/src/parser/markup.rs b/crates/rich/src/parser/markup.rs
index ecd47d3..b38f32e 100644
--- a/crates/rich/src/parser/markup.rs
+++ b/crates/rich/src/parser/markup.rs
@@ -39,6 +39,10 @@ pub fn parse(input: &str) -> Result<ParsedMarkup, RichParseError> {
     // Close any remaining open tags
     parser.close_all_remaining();
 
+    // Inner tags are closed first, but their styles go over those of the outer ones
+    parser.spans.reverse();
+    parser.spans.sort_by_key(|span| span.start);
+
     Ok(ParsedMarkup::new(parser.output, parser.spans))
 }
 
-- 
2.43.0


From f18eead120a6cf036f4ba586c40f0411fcb5b102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 37/59] fix: a markup close tag closes the latest tag of that
 name and nothing when there is none

---
 crates/rich/src/parser/markup.rs | 34 +++++++++++++++-----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/crates/rich/src/parser/markup.rs b/crates/rich/src/parser/markup.rs
index b38f32e..54d5069 100644
--- a/crates/rich/src/parser/markup.rs
+++ b/crates/rich/src/parser/markup.rs
@@ -157,33 +157,31 @@ impl Parser {
 
     /// Pop styles until we find one matching the given name.
     fn pop_style_matching(&mut self, name: &str) {
-        // Find the matching entry
-        let mut to_close = Vec::new();
-
-        while let Some(entry) = self.style_stack.pop() {
-            let matches = self.entry_matches(&entry, name);
-            to_close.push(entry);
-            if matches {
-                break;
+        // Find the matching entry: it is closed together with everything opened since
+        let found = self
+            .style_stack
+            .iter()
+            .rposition(|entry| self.entry_matches(entry, name));
+        if let Some(index) = found {
+            while self.style_stack.len() > index {
+                self.pop_style();
             }
         }
-
-        // Create spans for all closed entries
-        for entry in to_close {
-            self.create_span_from_entry(entry);
-        }
     }
 
     /// Check if a stack entry matches a close tag name.
     fn entry_matches(&self, entry: &StackEntry, name: &str) -> bool {
-        // Simple matching: check if the tag content starts with the name
-        // or contains it as a word
-        let content_lower = entry.tag_content.to_lowercase();
+        // Simple matching: the whole tag content, one of its words, or the key of `key=value`
+        let content_lower = entry.tag_content.trim().to_lowercase();
         let name_lower = name.to_lowercase();
 
         content_lower == name_lower
-            || content_lower.starts_with(&format!("{} ", name_lower))
-            || content_lower.contains(&format!(" {}", name_lower))
+            || content_lower
+                .split_whitespace()
+                .any(|word| word == name_lower)
+            || content_lower
+                .split_once('=')
+                .is_some_and(|(key, _)| key.trim() == name_lower)
     }
 
     /// Create a span from a stack entry.
-- 
2.43.0


From 38ae4460303c80db9cf46d6056c28cd86d37a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 38/59] fix: a hex colour with multi-byte characters in markup
 is an error and not a panic

---
 crates/rich/src/color.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rich/src/color.rs b/crates/rich/src/color.rs
index a333573..70e23b3 100644
--- a/crates/rich/src/color.rs
+++ b/crates/rich/src/color.rs
@@ -53,7 +53,7 @@ impl Color {
 
     /// Parse a hex color (without the # prefix).
     fn parse_hex(hex: &str) -> Result<Self, ColorParseError> {
-        match hex.len() {
+        match hex.chars().count() {
             // #RGB
             3 => {
                 let r = Self::parse_hex_digit(hex.chars().nth(0).unwrap())?;
-- 
2.43.0


From f18ba10f6193c53145bfbe638c0392e747bc8259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 39/59] fix: fuzzy search finds letters near the end of the
 candidate

---
 crates/textual/src/fuzzy.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index d1858b0..a872aea 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -47,19 +47,10 @@ impl FuzzySearch {
         let mut letter_positions: Vec<Vec<usize>> = Vec::new();
         let mut position = 0usize;
 
-        for (offset, letter) in query_chars.iter().enumerate() {
-            let last_index = candidate_len.saturating_sub(offset);
-            let mut positions = Vec::new();
-            let mut index = position;
-            while index < candidate_len {
-                if candidate_chars[index] == *letter {
-                    positions.push(index);
-                }
-                index += 1;
-                if index >= last_index {
-                    break;
-                }
-            }
+        for letter in &query_chars {
+            let positions: Vec<usize> = (position..candidate_len)
+                .filter(|&index| candidate_chars[index] == *letter)
+                .collect();
             if positions.is_empty() {
                 return (0.0, Vec::new());
             }
-- 
2.43.0


From df5df3cd576bc277f62fb52b8cd3223983bbfc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 40/59] fix: fuzzy match positions line up when lowercasing
 changes a character's length

---
 crates/textual/src/fuzzy.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index a872aea..b26678a 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -27,7 +27,7 @@ impl FuzzySearch {
         let (query, candidate) = if self.case_sensitive {
             (query.to_string(), candidate.to_string())
         } else {
-            (query.to_lowercase(), candidate.to_lowercase())
+            (fold_case(query), fold_case(candidate))
         };
 
         // Fast path: substring match.
@@ -203,6 +203,13 @@ fn first_letter_positions(candidate: &str) -> HashSet<usize> {
     positions
 }
 
+/// Lowercase character by character, so that positions in the result are positions in the input.
+fn fold_case(s: &str) -> String {
+    s.chars()
+        .map(|ch| ch.to_lowercase().next().unwrap_or(ch))
+        .collect()
+}
+
 fn byte_to_char_index(s: &str, byte_index: usize) -> usize {
     s[..byte_index].chars().count()
 }
-- 
2.43.0


From 64db5940cf4cf0a74aff8e8d00e559ce4920c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 41/59] fix: widths in w and h units are percentages of the
 parent in vertical layouts

---
 crates/textual/src/layouts/vertical.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 6d10968..0edcc1d 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -39,6 +39,12 @@ fn resolve_child_width(
         Some(w) if w.unit == Unit::ViewHeight => {
             ((w.value / 100.0) * viewport.height as f64).round() as i32
         }
+        Some(w) if w.unit == Unit::Width => {
+            ((w.value / 100.0) * available.width as f64).round() as i32
+        }
+        Some(w) if w.unit == Unit::Height => {
+            ((w.value / 100.0) * available.height as f64).round() as i32
+        }
         _ => resolve_width_with_intrinsic(child_style, desired_size.width, available.width),
     };
     let should_reduce_by_margins = match &child_style.width {
-- 
2.43.0


From d37ff9574f1baba1af104f93f00bb2a6b0b34786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 42/59] fix: a screen's scrollbars take each other's room into
 account

---
 crates/textual/src/widget/screen.rs | 92 ++++++++++++++---------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 8dca405..9cd6690 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -524,63 +524,63 @@ Screen {
         // Do not pad virtual size here; padding can fabricate overflow and force
         // Screen-level scrollbars even when content fits (differs from Python Textual).
 
-        let show_v_scrollbar = match self.style.overflow_y {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_height > inner_region.height,
-        };
-        let show_h_scrollbar = match self.style.overflow_x {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_width > inner_region.width,
-        };
+        let mut show_v_scrollbar = self.style.overflow_y == Overflow::Scroll;
+        let mut show_h_scrollbar = self.style.overflow_x == Overflow::Scroll;
 
         let style = &self.style.scrollbar;
-        let v_size = if show_v_scrollbar
-            || (style.gutter == ScrollbarGutter::Stable && self.style.overflow_y == Overflow::Auto)
-        {
-            style.size.vertical as i32
-        } else {
-            0
-        };
-        let h_size = if show_h_scrollbar {
-            style.size.horizontal as i32
-        } else {
-            0
-        };
-
-        let content_region = Region {
-            x: inner_region.x,
-            y: inner_region.y,
-            width: (inner_region.width - v_size).max(0),
-            height: (inner_region.height - h_size).max(0),
-        };
-
-        let (placements, recomputed) =
-            if show_v_scrollbar && content_region.width < inner_region.width {
-                let new_placements = self.compute_child_placements(content_region, viewport);
-                (new_placements, true)
+        let mut placements = initial_placements;
+        let mut layout_region = inner_region;
+        let (mut final_virtual_width, mut final_virtual_height) = (virtual_width, virtual_height);
+        // Each scrollbar takes room that the other may then need: repeat until neither is added
+        let content_region = loop {
+            let v_size = if show_v_scrollbar
+                || (style.gutter == ScrollbarGutter::Stable
+                    && self.style.overflow_y == Overflow::Auto)
+            {
+                style.size.vertical as i32
+            } else {
+                0
+            };
+            let h_size = if show_h_scrollbar {
+                style.size.horizontal as i32
             } else {
-                (initial_placements, false)
+                0
+            };
+
+            let content_region = Region {
+                x: inner_region.x,
+                y: inner_region.y,
+                width: (inner_region.width - v_size).max(0),
+                height: (inner_region.height - h_size).max(0),
             };
 
+            if content_region.width < inner_region.width && layout_region != content_region {
+                layout_region = content_region;
+                placements = self.compute_child_placements(layout_region, viewport);
+                let (width, height, _) = self.compute_virtual_size(&placements, layout_region);
+                (final_virtual_width, final_virtual_height) = (width, height);
+            }
+
+            let add_v = !show_v_scrollbar
+                && self.style.overflow_y == Overflow::Auto
+                && final_virtual_height > content_region.height;
+            let add_h = !show_h_scrollbar
+                && self.style.overflow_x == Overflow::Auto
+                && final_virtual_width > content_region.width;
+            if !add_v && !add_h {
+                break content_region;
+            }
+            show_v_scrollbar |= add_v;
+            show_h_scrollbar |= add_h;
+        };
+
         self.rendered.set(Some(RenderedGeometry {
             region,
-            layout_region: if recomputed {
-                content_region
-            } else {
-                inner_region
-            },
+            layout_region,
             content_region,
             viewport,
         }));
 
-        let (final_virtual_width, final_virtual_height, _final_max_from_auto) = if recomputed {
-            self.compute_virtual_size(&placements, content_region)
-        } else {
-            (virtual_width, virtual_height, false)
-        };
-
         {
             let mut scroll = self.scroll.borrow_mut();
             scroll.set_virtual_size(final_virtual_width, final_virtual_height);
-- 
2.43.0


From 7a6b789c481f8c82b3c21d0f98e19a223aac8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:02 +0000
Subject: [PATCH 43/59] fix: results of a cancelled search do not show up in
 the palette later

---
 crates/textual/src/widget/command_palette.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index c533d7a..7c3886f 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1054,6 +1054,8 @@ impl<M: 'static> CommandPalette<M> {
     }
 
     fn cancel_search(&mut self) {
+        // What the search has already sent must not be applied any more
+        self.search_generation = self.search_generation.wrapping_add(1);
         for handle in self.search_handles.drain(..) {
             handle.abort();
         }
-- 
2.43.0


From c032badebb8353ac79c9419e5d872e95fbbb6739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:02 +0000
Subject: [PATCH 44/59] fix: the palette is not shown as busy after the last
 provider has answered

---
 crates/textual/src/widget/command_palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 7c3886f..364fd01 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1243,7 +1243,7 @@ impl<M: 'static> CommandPalette<M> {
                 if generation != self.search_generation {
                     return false;
                 }
-                if self.list_visible {
+                if self.list_visible && self.completed_providers < self.expected_providers {
                     self.show_busy = true;
                     if let Some(loading) = self.loading_mut() {
                         loading.set_visible(true);
-- 
2.43.0


From 76b12f47a142524c5b193020e6c505bfc188de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:02 +0000
Subject: [PATCH 45/59] fix: the palette's busy indicator goes away when the
 last provider finds nothing

---
 crates/textual/src/widget/command_palette.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 364fd01..5b6f14a 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1222,15 +1222,14 @@ impl<M: 'static> CommandPalette<M> {
                         handle.abort();
                     }
                     self.show_busy = false;
-                    let mut cleared = false;
-                    if self.clear_current && self.pending_entries.is_empty() {
-                        self.entries.clear();
-                        self.clear_current = false;
-                        cleared = true;
-                    }
-                    self.flush_pending_entries();
-                    if cleared {
+                    if self.pending_entries.is_empty() {
+                        if self.clear_current {
+                            self.entries.clear();
+                            self.clear_current = false;
+                        }
                         self.refresh_results();
+                    } else {
+                        self.flush_pending_entries();
                     }
 
                     if self.entries.is_empty() && !self.query.trim().is_empty() {
-- 
2.43.0


From ff84be0313425dac7bf44d3e2a721a0ecd95ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:02 +0000
Subject: [PATCH 46/59] fix: choosing a command ends the search, so that it can
 still be submitted

---
 crates/textual/src/widget/command_palette.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 5b6f14a..bd0507b 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1532,6 +1532,7 @@ impl<M: 'static> CommandPalette<M> {
                 self.close_with_selected(true);
             }
         } else {
+            self.cancel_search();
             self.query = entry.text.clone();
             self.selected_action = entry.action;
             self.list_visible = false;
-- 
2.43.0


From f480aedee1dfd799fc4afa60537715d4f7b3599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:02 +0000
Subject: [PATCH 47/59] fix: the palette highlights the entry that Enter would
 run while a new search is under way

---
 crates/textual/src/widget/command_palette.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index bd0507b..b0ba647 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1130,6 +1130,8 @@ impl<M: 'static> CommandPalette<M> {
             return;
         }
 
+        self.update_list_widget();
+        self.emit_highlight();
         self.spawn_busy_timer(generation);
 
         let query = search_value.clone();
-- 
2.43.0


From 332849c1f1d30375bfb586b37e537d6df2360f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:13 +0000
Subject: [PATCH 48/59] fix: cached border segments are told apart by the
 opacity of their colours

---
 crates/textual/src/border_box.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/border_box.rs b/crates/textual/src/border_box.rs
index bcb0b9c..b793975 100644
--- a/crates/textual/src/border_box.rs
+++ b/crates/textual/src/border_box.rs
@@ -25,15 +25,21 @@ struct BoxCacheKey {
 /// Simplified style key for caching (colors only, not all attributes).
 #[derive(Hash, PartialEq, Eq, Clone, Debug, Default)]
 struct StyleKey {
-    fg: Option<(u8, u8, u8)>,
-    bg: Option<(u8, u8, u8)>,
+    fg: Option<(u8, u8, u8, u32, Option<u8>)>,
+    bg: Option<(u8, u8, u8, u32, Option<u8>)>,
 }
 
 impl From<&Style> for StyleKey {
     fn from(style: &Style) -> Self {
         Self {
-            fg: style.fg.as_ref().map(|c| (c.r, c.g, c.b)),
-            bg: style.bg.as_ref().map(|c| (c.r, c.g, c.b)),
+            fg: style
+                .fg
+                .as_ref()
+                .map(|c| (c.r, c.g, c.b, c.a.to_bits(), c.ansi)),
+            bg: style
+                .bg
+                .as_ref()
+                .map(|c| (c.r, c.g, c.b, c.a.to_bits(), c.ansi)),
         }
     }
 }
-- 
2.43.0


From b11e3e5e5357b488234bc031fffe9cf8ee57c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:13 +0000
Subject: [PATCH 49/59] fix: links below a title in the content area are where
 they are drawn

---
 crates/textual/src/widget/static_widget.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index facc9ea..0c3ddd8 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -396,7 +396,7 @@ impl<M> Static<M> {
     }
 
     /// Extract link regions from rendered content for hit testing.
-    fn extract_link_regions(&self, lines: &[Strip], cache: &RenderCache) {
+    fn extract_link_regions(&self, lines: &[Strip], cache: &RenderCache, reserve_top: usize) {
         let mut regions = Vec::new();
         let border_left = cache.border_left();
         let border_top = cache.border_top();
@@ -413,7 +413,7 @@ impl<M> Static<M> {
                     regions.push(LinkRegion {
                         action: action.to_string(),
                         // Account for border and padding offsets
-                        row: row_idx + border_top + padding_top,
+                        row: row_idx + border_top + padding_top + reserve_top,
                         start_col: col + border_left + padding_left,
                         end_col: col + seg_width + border_left + padding_left,
                     });
@@ -557,7 +557,7 @@ Static {
         // 4b. Extract link regions from content for hit testing
         // Store the render region for coordinate translation in mouse events
         *self.last_render_region.borrow_mut() = Some(region);
-        self.extract_link_regions(&aligned_lines, &cache);
+        self.extract_link_regions(&aligned_lines, &cache, reserve_top);
 
         // 5. Calculate content region boundaries (accounting for borders and padding)
         let border_top = cache.border_top();
-- 
2.43.0


From a7986d638a61d2cfa227ce5ba05503493c7ee4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:13 +0000
Subject: [PATCH 50/59] fix: every border and outline edge is drawn with its
 own kind and color

---
 crates/textual/src/render_cache.rs | 176 +++++++----------------------
 1 file changed, 42 insertions(+), 134 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index cb6142f..4febdb8 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -7,9 +7,7 @@ use tcss::types::border::BorderKind;
 use tcss::types::{AlignHorizontal, ComputedStyle};
 
 use crate::border_box::{BoxSegments, get_box};
-use crate::border_chars::{get_border_chars, get_border_locations};
 use crate::border_render::{render_label_in_row, render_row};
-use crate::segment::Segment;
 use crate::segment::Style;
 use crate::strip::Strip;
 
@@ -75,14 +73,10 @@ impl RenderCache {
         };
         let has_border = has_top_border || has_right_border || has_bottom_border || has_left_border;
 
-        // Use top border kind as the primary style (for box character selection)
-        let border_kind = style.border.top.kind;
-
         // Use the centralized effective_background from ComputedStyle
         let effective_bg = style.effective_background();
 
         let border_box = if has_border {
-            let border_type = border_kind_to_str(border_kind);
             let effective_opacity = style.opacity * style.opacity;
             let resolve_edge_color =
                 |edge: &tcss::types::border::BorderEdge| -> Option<tcss::types::RgbaColor> {
@@ -115,24 +109,28 @@ impl RenderCache {
             let right_inner = make_style(right_color.clone(), effective_bg.clone());
             let right_outer = make_style(right_color.clone(), style.inherited_background.clone());
 
-            let uniform =
-                top_color == bottom_color && top_color == left_color && top_color == right_color;
-
-            if uniform {
-                Some(get_box(border_type, &top_inner, &top_outer))
-            } else {
-                Some(build_border_box_per_edge(
-                    border_type,
-                    &top_inner,
-                    &top_outer,
-                    &bottom_inner,
-                    &bottom_outer,
-                    &left_inner,
-                    &left_outer,
-                    &right_inner,
-                    &right_outer,
-                ))
-            }
+            // Each edge is drawn with its own kind of border
+            let [top_row, (_, fill, _), _] = get_box(
+                border_kind_to_str(style.border.top.kind),
+                &top_inner,
+                &top_outer,
+            );
+            let [_, _, bottom_row] = get_box(
+                border_kind_to_str(style.border.bottom.kind),
+                &bottom_inner,
+                &bottom_outer,
+            );
+            let [_, (left, _, _), _] = get_box(
+                border_kind_to_str(style.border.left.kind),
+                &left_inner,
+                &left_outer,
+            );
+            let [_, (_, _, right), _] = get_box(
+                border_kind_to_str(style.border.right.kind),
+                &right_inner,
+                &right_outer,
+            );
+            Some([top_row, (left, fill, right), bottom_row])
         } else {
             None
         };
@@ -170,31 +168,27 @@ impl RenderCache {
 
         // Build outline box segments if any outline edge is visible
         let outline_box = if has_outline {
-            let outline_kind = style.outline.top.kind;
-            let outline_type = border_kind_to_str(outline_kind);
-            // Outline color, falling back to text color
-            let outline_color = style
-                .outline
-                .top
-                .color
-                .clone()
-                .or_else(|| style.color.clone());
-            let outline_inner_style = Style {
-                fg: outline_color.clone(),
-                bg: effective_bg.clone(),
-                ..Default::default()
-            };
-            // Outer style uses inherited/parent background
-            let outline_outer_style = Style {
-                fg: outline_color.clone(),
-                bg: style.inherited_background.clone(),
-                ..Default::default()
+            // Each edge has its own kind and color, falling back to text color
+            let outline_edge = |edge: &tcss::types::border::BorderEdge| {
+                let color = edge.color.clone().or_else(|| style.color.clone());
+                let inner_style = Style {
+                    fg: color.clone(),
+                    bg: effective_bg.clone(),
+                    ..Default::default()
+                };
+                // Outer style uses inherited/parent background
+                let outer_style = Style {
+                    fg: color,
+                    bg: style.inherited_background.clone(),
+                    ..Default::default()
+                };
+                get_box(border_kind_to_str(edge.kind), &inner_style, &outer_style)
             };
-            Some(get_box(
-                outline_type,
-                &outline_inner_style,
-                &outline_outer_style,
-            ))
+            let [top_row, (_, fill, _), _] = outline_edge(&style.outline.top);
+            let [_, _, bottom_row] = outline_edge(&style.outline.bottom);
+            let [_, (left, _, _), _] = outline_edge(&style.outline.left);
+            let [_, (_, _, right), _] = outline_edge(&style.outline.right);
+            Some([top_row, (left, fill, right), bottom_row])
         } else {
             None
         };
@@ -764,92 +758,6 @@ fn border_kind_to_str(kind: BorderKind) -> &'static str {
     }
 }
 
-fn build_border_box_per_edge(
-    border_type: &str,
-    top_inner: &Style,
-    top_outer: &Style,
-    bottom_inner: &Style,
-    bottom_outer: &Style,
-    left_inner: &Style,
-    left_outer: &Style,
-    right_inner: &Style,
-    right_outer: &Style,
-) -> [BoxSegments; 3] {
-    let chars = get_border_chars(border_type);
-    let locations = get_border_locations(border_type);
-
-    let style_for_zone = |zone: u8, inner: &Style, outer: &Style| -> Style {
-        match zone {
-            0 => inner.clone(),
-            1 => outer.clone(),
-            2 => Style {
-                fg: inner.fg.clone(),
-                bg: outer.bg.clone(),
-                reverse: true,
-                ..inner.clone()
-            },
-            3 => Style {
-                fg: outer.fg.clone(),
-                bg: inner.bg.clone(),
-                reverse: true,
-                ..outer.clone()
-            },
-            _ => inner.clone(),
-        }
-    };
-
-    let build_row = |row_idx: usize,
-                     left_in: &Style,
-                     left_out: &Style,
-                     fill_in: &Style,
-                     fill_out: &Style,
-                     right_in: &Style,
-                     right_out: &Style|
-     -> BoxSegments {
-        let left_char = chars[row_idx][0];
-        let fill_char = chars[row_idx][1];
-        let right_char = chars[row_idx][2];
-
-        let left_loc = locations[row_idx][0];
-        let fill_loc = locations[row_idx][1];
-        let right_loc = locations[row_idx][2];
-
-        let left_style = style_for_zone(left_loc, left_in, left_out);
-        let fill_style = style_for_zone(fill_loc, fill_in, fill_out);
-        let right_style = style_for_zone(right_loc, right_in, right_out);
-
-        (
-            Segment::styled(left_char.to_string(), left_style),
-            Segment::styled(fill_char.to_string(), fill_style),
-            Segment::styled(right_char.to_string(), right_style),
-        )
-    };
-
-    let top_row = build_row(
-        0, top_inner, top_outer, top_inner, top_outer, top_inner, top_outer,
-    );
-    let middle_row = build_row(
-        1,
-        left_inner,
-        left_outer,
-        top_inner,
-        top_outer,
-        right_inner,
-        right_outer,
-    );
-    let bottom_row = build_row(
-        2,
-        bottom_inner,
-        bottom_outer,
-        bottom_inner,
-        bottom_outer,
-        bottom_inner,
-        bottom_outer,
-    );
-
-    [top_row, middle_row, bottom_row]
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0391b52c081dbdad404d4aae857b8f0ab386c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:07 +0000
Subject: [PATCH 51/59] fix: title rows between side borders stay inside the
 widget and its outline

---
 crates/textual/src/render_cache.rs | 46 ++++++++++++++----------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 4febdb8..a46bf0c 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -381,25 +381,21 @@ impl RenderCache {
                 // Content row - check if we have side borders
                 if self.has_left_border || self.has_right_border {
                     // For vertical keyline borders (no top/bottom), render titles in the first/last content rows
-                    if !self.has_top_border && is_first_content_row && title.is_some() {
-                        return self.render_labeled_middle_row(
-                            &box_segs[1],
-                            width,
-                            title.unwrap(),
-                            self.style.border_title_align,
-                        );
+                    let label = if !self.has_top_border && is_first_content_row && title.is_some() {
+                        title.map(|title| (title, self.style.border_title_align))
+                    } else if !self.has_bottom_border && is_last_content_row {
+                        subtitle.map(|subtitle| (subtitle, self.style.border_subtitle_align))
+                    } else {
+                        None
+                    };
+
+                    match label {
+                        Some((label, align)) => {
+                            self.render_labeled_middle_row(&box_segs[1], width, label, align)
+                        }
+                        // Has at least one side border
+                        None => self.render_partial_middle_row(&box_segs[1], content_line, width),
                     }
-                    if !self.has_bottom_border && is_last_content_row && subtitle.is_some() {
-                        return self.render_labeled_middle_row(
-                            &box_segs[1],
-                            width,
-                            subtitle.unwrap(),
-                            self.style.border_subtitle_align,
-                        );
-                    }
-
-                    // Has at least one side border
-                    self.render_partial_middle_row(&box_segs[1], content_line, width)
                 } else {
                     // No side borders - just content with padding
                     self.render_content_row(width, content_line)
@@ -410,15 +406,15 @@ impl RenderCache {
             }
         };
 
+        // Apply outline as final overlay (outline renders ON TOP of content)
+        let strip = self.apply_outline(base_strip, y, height, width);
+
         // Chrome wider than the widget is cut at the widget's own edge
-        let base_strip = if base_strip.cell_length() > width {
-            base_strip.crop(0, width)
+        if strip.cell_length() > width {
+            strip.crop(0, width)
         } else {
-            base_strip
-        };
-
-        // Apply outline as final overlay (outline renders ON TOP of content)
-        self.apply_outline(base_strip, y, height, width)
+            strip
+        }
     }
 
     /// Renders a content row without any border (just padding and content).
-- 
2.43.0


From fd56dbba0ea976fa991bc1bba1508befb87b2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:07 +0000
Subject: [PATCH 52/59] fix: no row is reserved for a title that is not drawn

---
 crates/textual/src/widget/static_widget.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index 0c3ddd8..4fb36d9 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -531,12 +531,14 @@ Static {
                 .border_subtitle
                 .as_ref()
                 .is_some_and(|subtitle| !subtitle.is_empty());
-        let reserve_top = if cache.border_top() == 0 && has_title {
+        // Without a top or bottom border the label takes a row between the side borders
+        let labels_inside = cache.border_horizontal() > 0;
+        let reserve_top = if cache.border_top() == 0 && labels_inside && has_title {
             1
         } else {
             0
         };
-        let reserve_bottom = if cache.border_bottom() == 0 && has_subtitle {
+        let reserve_bottom = if cache.border_bottom() == 0 && labels_inside && has_subtitle {
             1
         } else {
             0
-- 
2.43.0


From 4cc20756a17950f454d4a4a253356d5ab4250c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 53/59] fix: a container sized by its content no longer caps
 its children at 1000 cells

---
 crates/textual/src/containers/container.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index b9ccaf9..9094edb 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -579,12 +579,12 @@ impl<M> Container<M> {
             let capped_width = if child_size.width == u16::MAX {
                 0
             } else {
-                child_size.width.min(1000)
+                child_size.width
             };
             let capped_height = if child_size.height == u16::MAX {
                 0
             } else {
-                child_size.height.min(1000)
+                child_size.height
             };
 
             let margin_left = child_style.margin.left.value as u16;
-- 
2.43.0


From 5cdd94323cc0e401f80921c46c5ff4d8523197d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 54/59] fix: a scrollable container counts the first child
 margin once when sized by its content

---
 crates/textual/src/containers/scrollable.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index dee3afa..fa2fa32 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -371,14 +371,10 @@ impl<M> ScrollableContainer<M> {
         let mut any_child_wants_fill_height = false;
 
         let mut prev_margin_bottom: u16 = 0;
-        let mut first_child_margin_top: u16 = 0;
         let mut last_child_margin_bottom: u16 = 0;
-        let mut is_first_child = true;
 
         let mut prev_margin_right: u16 = 0;
-        let mut first_child_margin_left: u16 = 0;
         let mut last_child_margin_right: u16 = 0;
-        let mut is_first_h_child = true;
 
         for child in &self.children {
             if !child.participates_in_layout() {
@@ -415,10 +411,6 @@ impl<M> ScrollableContainer<M> {
 
             match self.style.layout {
                 LayoutDirection::Vertical => {
-                    if is_first_child {
-                        first_child_margin_top = margin_top;
-                        is_first_child = false;
-                    }
                     last_child_margin_bottom = margin_bottom;
 
                     let margin_overlap = prev_margin_bottom.max(margin_top);
@@ -429,10 +421,6 @@ impl<M> ScrollableContainer<M> {
                     max_width = max_width.max(child_width_with_margins);
                 }
                 LayoutDirection::Horizontal => {
-                    if is_first_h_child {
-                        first_child_margin_left = margin_left;
-                        is_first_h_child = false;
-                    }
                     last_child_margin_right = margin_right;
 
                     let margin_overlap = prev_margin_right.max(margin_left);
@@ -466,7 +454,7 @@ impl<M> ScrollableContainer<M> {
                     self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
                 Size::new(
                     total_width.saturating_add(border_size + padding_h),
-                    total_height.saturating_add(border_size + padding_v + first_child_margin_top),
+                    total_height.saturating_add(border_size + padding_v),
                 )
             }
             LayoutDirection::Horizontal => {
@@ -484,7 +472,7 @@ impl<M> ScrollableContainer<M> {
                 let padding_v =
                     self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
                 Size::new(
-                    total_width.saturating_add(border_size + padding_h + first_child_margin_left),
+                    total_width.saturating_add(border_size + padding_h),
                     total_height.saturating_add(border_size + padding_v),
                 )
             }
-- 
2.43.0


From cdddcd0a71f659998afc172cff6c3f6ec3d95042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 55/59] fix: a scrollable container sized by its content counts
 each border edge it has

---
 crates/textual/src/containers/scrollable.rs | 23 +++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index fa2fa32..59c8276 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -354,13 +354,17 @@ impl<M> ScrollableContainer<M> {
     }
 
     fn calculate_intrinsic_size(&self) -> Size {
+        // Each border edge takes its own cell, so an axis may have zero, one or two
+        let cache = RenderCache::new(&self.style);
+        let border_h = cache.border_horizontal() as u16;
+        let border_v = cache.border_vertical() as u16;
+
         if self.children.is_empty() {
-            let border_size = if self.style.border.is_none() { 0 } else { 2 };
             let padding_h =
                 self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
             let padding_v =
                 self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-            return Size::new(border_size + padding_h, border_size + padding_v);
+            return Size::new(border_h + padding_h, border_v + padding_v);
         }
 
         let mut total_width: u16 = 0;
@@ -447,14 +451,13 @@ impl<M> ScrollableContainer<M> {
                 if any_child_wants_fill_height {
                     total_height = u16::MAX;
                 }
-                let border_size = if self.style.border.is_none() { 0 } else { 2 };
                 let padding_h =
                     self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
                 let padding_v =
                     self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
                 Size::new(
-                    total_width.saturating_add(border_size + padding_h),
-                    total_height.saturating_add(border_size + padding_v),
+                    total_width.saturating_add(border_h + padding_h),
+                    total_height.saturating_add(border_v + padding_v),
                 )
             }
             LayoutDirection::Horizontal => {
@@ -466,25 +469,23 @@ impl<M> ScrollableContainer<M> {
                 if any_child_wants_fill_height {
                     total_height = u16::MAX;
                 }
-                let border_size = if self.style.border.is_none() { 0 } else { 2 };
                 let padding_h =
                     self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
                 let padding_v =
                     self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
                 Size::new(
-                    total_width.saturating_add(border_size + padding_h),
-                    total_height.saturating_add(border_size + padding_v),
+                    total_width.saturating_add(border_h + padding_h),
+                    total_height.saturating_add(border_v + padding_v),
                 )
             }
             LayoutDirection::Grid => {
-                let border_size = if self.style.border.is_none() { 0 } else { 2 };
                 let padding_h =
                     self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
                 let padding_v =
                     self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
                 Size::new(
-                    max_width.saturating_add(border_size + padding_h),
-                    max_height.saturating_add(border_size + padding_v),
+                    max_width.saturating_add(border_h + padding_h),
+                    max_height.saturating_add(border_v + padding_v),
                 )
             }
         }
-- 
2.43.0


From 410101f85614feeeb81805ca47c8e062ace24295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 56/59] fix: box-drawing glyphs of half lines and of mixed
 heavy joints have the arms they stand for

---
 crates/textual/src/box_drawing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/box_drawing.rs b/crates/textual/src/box_drawing.rs
index 13e9df5..b907407 100644
--- a/crates/textual/src/box_drawing.rs
+++ b/crates/textual/src/box_drawing.rs
@@ -114,8 +114,8 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     // Mixed cross junctions
     map.insert((1, 2, 1, 2), '┿'); // thin vertical, heavy horizontal
     map.insert((2, 1, 2, 1), '╂'); // heavy vertical, thin horizontal
-    map.insert((2, 2, 1, 2), '╈'); // heavy top/horizontal, thin bottom
-    map.insert((1, 2, 2, 2), '╇'); // thin top, heavy bottom/horizontal
+    map.insert((2, 2, 1, 2), '╇'); // heavy top/horizontal, thin bottom
+    map.insert((1, 2, 2, 2), '╈'); // thin top, heavy bottom/horizontal
     map.insert((2, 2, 2, 1), '╊'); // heavy top/bottom/right, thin left
     map.insert((2, 1, 2, 2), '╉'); // heavy top/bottom/left, thin right
 
@@ -130,12 +130,12 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     map.insert((2, 1, 0, 2), '┹'); // bottom T: heavy top/left, thin right
 
     // Half lines (for edge caps)
-    map.insert((0, 1, 0, 0), '╴'); // thin left half
-    map.insert((0, 0, 0, 1), '╶'); // thin right half
+    map.insert((0, 1, 0, 0), '╶'); // thin right half
+    map.insert((0, 0, 0, 1), '╴'); // thin left half
     map.insert((1, 0, 0, 0), '╵'); // thin top half
     map.insert((0, 0, 1, 0), '╷'); // thin bottom half
-    map.insert((0, 2, 0, 0), '╸'); // heavy left half
-    map.insert((0, 0, 0, 2), '╺'); // heavy right half
+    map.insert((0, 2, 0, 0), '╺'); // heavy right half
+    map.insert((0, 0, 0, 2), '╸'); // heavy left half
     map.insert((2, 0, 0, 0), '╹'); // heavy top half
     map.insert((0, 0, 2, 0), '╻'); // heavy bottom half
 
-- 
2.43.0


From 889b146ea98915a106388d3b1f302cf51d162a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 57/59] fix: default-styled text at the end of a row is part of
 an SVG export

---
 crates/textual/src/svg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/svg.rs b/crates/textual/src/svg.rs
index d34615d..df6aaf0 100644
--- a/crates/textual/src/svg.rs
+++ b/crates/textual/src/svg.rs
@@ -277,7 +277,10 @@ impl SvgRenderer {
 
                 // Check if we need to flush the current run
                 let style_changed = current_fg != run_fg || current_attrs != run_attrs;
-                if style_changed && !run_text.is_empty() {
+                // A default-styled run looks like the end-of-line sentinel, so it is flushed
+                // at the end of the line unless it is only blank padding
+                let line_ended = x == width as i32 && !run_text.trim().is_empty();
+                if (style_changed || line_ended) && !run_text.is_empty() {
                     let x_pos = (run_start as f32) * self.config.char_width;
                     let text_length = (run_cells as f32) * self.config.char_width;
                     let class_name = run_fg
-- 
2.43.0


From c7fd49185c474ad03d476e07ba83c6748825ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 58/59] fix: a placeholder's text is cut off at the edges of
 its content area

---
 crates/textual/src/widget/placeholder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index 27d73bc..462ca7c 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -368,6 +368,13 @@ Placeholder {
             if content_width <= 0 || content_height <= 0 {
                 return;
             }
+            // A label that is too long for the content area is cut off at its edge
+            canvas.push_clip(Region::new(
+                content_x,
+                content_y,
+                content_width,
+                content_height,
+            ));
             match self.variant {
                 PlaceholderVariant::Text => {
                     // Text variant: 1-cell padding on all sides, word wrap, block-centered
@@ -472,6 +479,7 @@ Placeholder {
                     }
                 }
             }
+            canvas.pop_clip();
         }
     }
 
-- 
2.43.0


From fc0f9ea8883d2d177a0396cf17fb208419927280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 59/59] fix: a loading indicator draws nothing in an empty
 region and is dirty when shown or hidden through the trait

---
 crates/textual/src/widget/loading_indicator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/loading_indicator.rs b/crates/textual/src/widget/loading_indicator.rs
index 4468b2b..ecd8d00 100644
--- a/crates/textual/src/widget/loading_indicator.rs
+++ b/crates/textual/src/widget/loading_indicator.rs
@@ -82,6 +82,9 @@ LoadingIndicator {
         if !self.visible || self.style.visibility == Visibility::Hidden {
             return;
         }
+        if region.width <= 0 || region.height <= 0 {
+            return;
+        }
         let frame = SPINNER_FRAMES[self.frame];
         canvas.put_char(
             region.x,
@@ -170,7 +173,10 @@ LoadingIndicator {
     }
 
     fn set_visible(&mut self, visible: bool) {
-        self.visible = visible;
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
     }
 
     fn is_loading(&self) -> bool {
-- 
2.43.0

