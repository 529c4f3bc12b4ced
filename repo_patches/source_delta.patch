From bfb0f1801037d792834e4bf667b9d9c11a0f04fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 01/71] fix: escape Unicode noncharacters that are not allowed
 in XML

---
 src/xmlwriter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xmlwriter.rs b/src/xmlwriter.rs
index 945d96e..e660823 100644
--- a/src/xmlwriter.rs
+++ b/src/xmlwriter.rs
@@ -221,6 +221,10 @@ fn match_xml_char(ch: char) -> Option<&'static str> {
         '\x1E' => Some("_x001E_"),
         '\x1F' => Some("_x001F_"),
 
+        // Unicode noncharacters that aren't allowed in XML.
+        '\u{FFFE}' => Some("_xFFFE_"),
+        '\u{FFFF}' => Some("_xFFFF_"),
+
         _ => None,
     }
 }
-- 
2.43.0


From 2550446be036ecba4ecbb5c23ef1d68bc8ab5235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 02/71] fix: don't overflow when quoting sheet names like 'a.b'

---
 src/utility.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility.rs b/src/utility.rs
index 4796619..fd66c38 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -670,6 +670,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
         // Excel row and column limits.
         // --------------------------------------------------------------------
         else if (1..=3).contains(&string_part.len())
+            && string_part.chars().all(|c| c.is_ascii_alphabetic())
             && number_part.chars().all(|c| c.is_ascii_digit())
         {
             let col = column_name_to_number(&string_part);
-- 
2.43.0


From f2af925e91fc69f95a470809053ffb375ce7ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 03/71] fix: close each ext element of a worksheet with rules
 and sparklines

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 56fdda5..52e3bc4 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19682,6 +19682,7 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_conditional_formattings();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
         // Write the x14:sparklineGroups element.
@@ -19695,10 +19696,9 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_sparkline_groups();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
-        xml_end_tag(&mut self.writer, "ext");
-
         xml_end_tag(&mut self.writer, "extLst");
     }
 
-- 
2.43.0


From a56d90307d8b367cdc064e7a8467bb2bc4792aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 04/71] fix: write each row once and all rows at the end of
 constant memory data

---
 src/worksheet.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 52e3bc4..28ba6b6 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18587,28 +18587,29 @@ impl Worksheet {
         // First find any write ahead cached rows.
         let mut remaining_rows: Vec<_> = self.write_ahead.keys().copied().collect();
 
-        // Add any changed row elements.
-        let max_changed_row = self.changed_rows.keys().max().unwrap_or(&0);
-        if *max_changed_row > self.current_row {
-            for row_num in self.current_row..=*max_changed_row {
-                if self.changed_rows.contains_key(&row_num) {
-                    remaining_rows.push(row_num);
-                }
-            }
-        }
-
-        // Add the current row.
-        remaining_rows.push(self.current_row);
+        // Add any changed row elements after the current row.
+        remaining_rows.extend(
+            self.changed_rows
+                .keys()
+                .filter(|row_num| **row_num > self.current_row),
+        );
 
         // Remove any duplicate rows.
         remaining_rows.sort_unstable();
         remaining_rows.dedup();
 
-        // If there is data to write (and not just write-ahead or rows) we move
-        // the final row ahead by one. This will start any subsequent write() on
-        // the next row, after a resave.
-        if self.data_table.contains_key(&self.current_row) {
-            remaining_rows.push(1 + *remaining_rows.last().unwrap());
+        // Each row is written when we move on to the next one. So, if there is
+        // anything to write we move the final row ahead by one. This will start
+        // any subsequent write() on the next row, after a resave.
+        match remaining_rows.last() {
+            Some(last_row) => remaining_rows.push(1 + *last_row),
+            None => {
+                if self.data_table.contains_key(&self.current_row)
+                    || self.changed_rows.contains_key(&self.current_row)
+                {
+                    remaining_rows.push(1 + self.current_row);
+                }
+            }
         }
 
         // Flush all the remaining rows.
-- 
2.43.0


From f63a8251182bf999e0e068f19fb8bd5e17a344c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 05/71] fix: number header and footer images in the order they
 are written

---
 src/workbook.rs  | 6 +-----
 src/worksheet.rs | 8 ++++----
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 3d40929..881feb0 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2339,11 +2339,7 @@ impl Workbook {
             }
 
             if worksheet.has_header_footer_images() {
-                // The header/footer images are counted from the last worksheet id.
-                let base_image_id =
-                    background_image_ids.len() as u32 + worksheet_image_ids.len() as u32;
-
-                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, base_image_id);
+                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, &mut image_id);
             }
         }
     }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 28ba6b6..00ebd0b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16325,16 +16325,16 @@ impl Worksheet {
     pub(crate) fn prepare_header_footer_images(
         &mut self,
         image_ids: &mut HashMap<String, u32>,
-        base_image_id: u32,
+        image_id: &mut u32,
     ) {
         let mut rel_ids: HashMap<String, u32> = HashMap::new();
         for image in self.header_footer_images.clone().into_iter().flatten() {
             let image_id = match image_ids.get(&image.hash) {
                 Some(image_id) => *image_id,
                 None => {
-                    let image_id = 1 + base_image_id + image_ids.len() as u32;
-                    image_ids.insert(image.hash.clone(), image_id);
-                    image_id
+                    *image_id += 1;
+                    image_ids.insert(image.hash.clone(), *image_id);
+                    *image_id
                 }
             };
 
-- 
2.43.0


From b1b17d127ee004ec70c22e56b20c45085f47ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 06/71] fix: shape links after several charts used the
 relationship ids of the charts

---
 src/worksheet.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 00ebd0b..e92504f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16185,7 +16185,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
@@ -16208,7 +16208,7 @@ impl Worksheet {
             let rel_id = match self.drawing_rel_ids.get(&image.hash) {
                 Some(rel_id) => *rel_id,
                 None => {
-                    let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                    let rel_id = 1 + self.drawing_relationships.len() as u32;
                     self.drawing_rel_ids.insert(image.hash.clone(), rel_id);
 
                     // Store the linkage to the drawings rels file.
@@ -16276,7 +16276,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
@@ -16485,7 +16485,6 @@ impl Worksheet {
         }
 
         let mut rel_id = self.drawing_relationships.len() as u32;
-        self.drawing_rel_ids.insert("Chart".to_string(), rel_id);
 
         for (cell, chart) in &mut self.charts.clone() {
             let row = cell.0;
-- 
2.43.0


From 4f51357a0c2ae0e78aa431d8cfb55526e1d0a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 07/71] fix: match data bars and rule priorities with their
 extended rules

---
 src/worksheet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e92504f..d7f130c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17970,12 +17970,17 @@ impl Worksheet {
         let mut guid_index = 1;
         let mut priority = 1;
 
-        for (cell_range, conditionals_for_range) in &self.conditional_formats {
+        // Use the same order as write_conditional_formats() so that the GUIDs
+        // and priorities match.
+        for cell_range in &self.conditional_format_order {
+            let conditionals_for_range = self.conditional_formats.get(cell_range).unwrap();
+
             // Only create an entry if range contains a x14 style conditional.
             if !conditionals_for_range
                 .iter()
                 .any(|rule| rule.has_x14_extensions())
             {
+                priority += conditionals_for_range.len() as u32;
                 continue;
             }
 
-- 
2.43.0


From 2293a3f074e980489cb916dfc3e677daa84de80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 08/71] fix: open sheetData when a constant memory sheet only
 has write-ahead rows

---
 src/worksheet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d7f130c..4c239ef 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17358,8 +17358,16 @@ impl Worksheet {
         // Write the cols element.
         self.write_cols();
 
+        // Check for constant memory data that hasn't been written yet.
+        #[cfg(feature = "constant_memory")]
+        let has_write_ahead_data = !self.write_ahead.is_empty();
+
+        #[cfg(not(feature = "constant_memory"))]
+        let has_write_ahead_data = false;
+
         // Write the <sheetData> element.
         if !self.has_sheet_data
+            && !has_write_ahead_data
             && self.data_table.is_empty()
             && self.notes.is_empty()
             && self.changed_rows.is_empty()
-- 
2.43.0


From d2c6c2149d1302eac4c64a362a3dd539aace4d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 09/71] fix: include cells formatted with set_range_format in
 the worksheet dimensions

---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4c239ef..51f8075 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10350,6 +10350,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Get the index of the format object.
         let xf_index = self.format_xf_index(format);
 
-- 
2.43.0


From 6f8cd474ed728f751788d43dbbd8d0d193d465c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 10/71] fix: create worksheet temporary files only in the
 directory set with set_tempdir

---
 src/workbook.rs  | 42 +++++++++++++++++-------------------------
 src/worksheet.rs | 23 ++++++++++++++++++++---
 2 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 881feb0..7e09a7e 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -226,9 +226,6 @@ use std::sync::{Arc, Mutex, RwLock};
 #[cfg(feature = "constant_memory")]
 use tempfile::tempfile_in;
 
-#[cfg(feature = "constant_memory")]
-use std::io::BufWriter;
-
 #[cfg(feature = "constant_memory")]
 use std::path::PathBuf;
 
@@ -497,7 +494,7 @@ impl Workbook {
         let name = format!("Sheet{}", self.num_worksheets + 1);
         self.num_worksheets += 1;
 
-        let mut worksheet = Worksheet::new();
+        let mut worksheet = self.new_worksheet();
         worksheet.set_name(&name).unwrap();
 
         self.worksheets.push(worksheet);
@@ -560,13 +557,9 @@ impl Workbook {
         let name = format!("Sheet{}", self.num_worksheets + 1);
         self.num_worksheets += 1;
 
-        let mut worksheet = Worksheet::new();
+        let mut worksheet = self.new_worksheet();
         worksheet.set_name(&name).unwrap();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
-
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
 
@@ -633,13 +626,9 @@ impl Workbook {
         let name = format!("Sheet{}", self.num_worksheets + 1);
         self.num_worksheets += 1;
 
-        let mut worksheet = Worksheet::new();
+        let mut worksheet = self.new_worksheet();
         worksheet.set_name(&name).unwrap();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
-
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
 
@@ -682,11 +671,7 @@ impl Workbook {
     #[cfg(feature = "constant_memory")]
     #[cfg_attr(docsrs, doc(cfg(feature = "constant_memory")))]
     pub fn new_worksheet_with_constant_memory(&mut self) -> Worksheet {
-        let mut worksheet = Worksheet::new();
-
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        let mut worksheet = self.new_worksheet();
 
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
@@ -724,11 +709,7 @@ impl Workbook {
     #[cfg(feature = "constant_memory")]
     #[cfg_attr(docsrs, doc(cfg(feature = "constant_memory")))]
     pub fn new_worksheet_with_low_memory(&mut self) -> Worksheet {
-        let mut worksheet = Worksheet::new();
-
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        let mut worksheet = self.new_worksheet();
 
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
@@ -883,7 +864,7 @@ impl Workbook {
         let name = format!("Chart{}", self.num_chartsheets + 1);
         self.num_chartsheets += 1;
 
-        let mut worksheet = Worksheet::new_chartsheet();
+        let mut worksheet = Worksheet::new_chartsheet_from(self.new_worksheet());
         worksheet.set_name(&name).unwrap();
 
         self.worksheets.push(worksheet);
@@ -2020,6 +2001,17 @@ impl Workbook {
     // Internal function/methods.
     // -----------------------------------------------------------------------
 
+    // Create a new worksheet with its temporary file in the workbook tempdir,
+    // if one has been set.
+    fn new_worksheet(&self) -> Worksheet {
+        #[cfg(feature = "constant_memory")]
+        if let Some(tempdir) = &self.tempdir {
+            return Worksheet::new_with_file(tempfile_in(tempdir).unwrap());
+        }
+
+        Worksheet::new()
+    }
+
     // Reset workbook between saves.
     fn reset(&mut self) {
         xmlwriter::reset(&mut self.writer);
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 51f8075..8fd4f8e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1717,8 +1717,20 @@ impl Worksheet {
     ///
     /// <img src="https://rustxlsxwriter.github.io/images/worksheet_new.png">
     ///
-    #[allow(clippy::too_many_lines)]
     pub fn new() -> Worksheet {
+        #[cfg(feature = "constant_memory")]
+        let worksheet = Self::new_with_file(tempfile_in(std::env::temp_dir()).unwrap());
+
+        #[cfg(not(feature = "constant_memory"))]
+        let worksheet = Self::new_with_file();
+
+        worksheet
+    }
+
+    // Create a new worksheet that stores its constant memory data in the
+    // supplied temporary file.
+    #[allow(clippy::too_many_lines)]
+    pub(crate) fn new_with_file(#[cfg(feature = "constant_memory")] tempfile: File) -> Worksheet {
         let writer = Cursor::new(Vec::with_capacity(2048));
 
         // Initialize the min and max dimensions with their opposite value.
@@ -1730,7 +1742,7 @@ impl Worksheet {
         };
 
         #[cfg(feature = "constant_memory")]
-        let file_writer = BufWriter::new(tempfile_in(std::env::temp_dir()).unwrap());
+        let file_writer = BufWriter::new(tempfile);
 
         Worksheet {
             writer,
@@ -1939,6 +1951,11 @@ impl Worksheet {
     /// }
     /// ```
     pub fn new_chartsheet() -> Worksheet {
+        Self::new_chartsheet_from(Self::new())
+    }
+
+    // Convert a new worksheet into a chartsheet.
+    pub(crate) fn new_chartsheet_from(worksheet: Worksheet) -> Worksheet {
         let protection_options = ProtectionOptions {
             edit_objects: true,
             ..Default::default()
@@ -1948,7 +1965,7 @@ impl Worksheet {
             is_chartsheet: true,
             is_portrait: false,
             protection_options,
-            ..Default::default()
+            ..worksheet
         }
     }
 
-- 
2.43.0


From 4a0227fd4e722de2d295ec3d5957a561d3fb74dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 11/71] fix: return errors when reading back constant memory
 data and keep appending after a failed save

---
 src/packager.rs  | 15 +--------------
 src/worksheet.rs | 30 +++++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index bdda890..48ac82b 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -43,9 +43,6 @@
 use std::collections::HashSet;
 use std::io::{Seek, Write};
 
-#[cfg(feature = "constant_memory")]
-use std::io::{BufRead, BufReader};
-
 use std::sync::{Arc, Mutex};
 #[cfg(not(target_arch = "wasm32"))]
 use std::thread;
@@ -457,17 +454,7 @@ impl<W: Write + Seek + Send> Packager<W> {
                 // We also need to flush the last remaining row.
                 worksheet.flush_last_row();
 
-                worksheet.file_writer.rewind().unwrap();
-                let mut reader = BufReader::new(worksheet.file_writer.get_ref());
-                loop {
-                    let buffer = reader.fill_buf().unwrap();
-                    let length = buffer.len();
-                    if length == 0 {
-                        break;
-                    }
-                    self.zip.write_all(buffer).unwrap();
-                    reader.consume(length);
-                }
+                worksheet.copy_constant_memory_data(&mut self.zip)?;
             }
 
             // Section 3. In memory metadata at end of the file.
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8fd4f8e..d1d7651 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1360,7 +1360,7 @@ use std::{cmp, fmt};
 use tempfile::tempfile_in;
 
 #[cfg(feature = "constant_memory")]
-use std::io::BufWriter;
+use std::io::{BufWriter, Seek, SeekFrom};
 
 #[cfg(feature = "constant_memory")]
 use std::fs::File;
@@ -1634,6 +1634,9 @@ pub struct Worksheet {
     #[cfg(feature = "constant_memory")]
     pub(crate) file_writer: BufWriter<File>,
 
+    #[cfg(feature = "constant_memory")]
+    file_writer_rewound: bool,
+
     #[cfg(feature = "constant_memory")]
     write_ahead: BTreeMap<RowNum, BTreeMap<ColNum, CellType>>,
 
@@ -1887,6 +1890,9 @@ impl Worksheet {
             #[cfg(feature = "constant_memory")]
             file_writer,
 
+            #[cfg(feature = "constant_memory")]
+            file_writer_rewound: false,
+
             #[cfg(feature = "constant_memory")]
             write_ahead: BTreeMap::new(),
 
@@ -18651,6 +18657,20 @@ impl Worksheet {
         }
     }
 
+    // Copy the constant memory data from the temporary file to the target file.
+    // Any rows that are written afterwards are appended to the temporary file.
+    #[cfg(feature = "constant_memory")]
+    pub(crate) fn copy_constant_memory_data<W: Write>(
+        &mut self,
+        target: &mut W,
+    ) -> Result<(), XlsxError> {
+        self.file_writer_rewound = true;
+        self.file_writer.rewind()?;
+        std::io::copy(self.file_writer.get_mut(), target)?;
+
+        Ok(())
+    }
+
     // Flush all constant memory data up to the next target row.
     #[cfg(feature = "constant_memory")]
     fn flush_to_row(&mut self, next_row: RowNum) {
@@ -18686,6 +18706,14 @@ impl Worksheet {
     fn flush_data_row(&mut self, next_row: RowNum) {
         let current_row = self.current_row;
 
+        // Append the row after any data that was read back by a previous save.
+        if self.file_writer_rewound {
+            self.file_writer
+                .seek(SeekFrom::End(0))
+                .expect("Couldn't seek in temporary file");
+            self.file_writer_rewound = false;
+        }
+
         // Swap out the worksheet data structures so we can iterate over them and
         // still call self.write_*() methods.
         let mut temp_table: BTreeMap<RowNum, BTreeMap<ColNum, CellType>> = BTreeMap::new();
-- 
2.43.0


From 0035b049de3d77ced66a30d762d074b2af7c2f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 12/71] fix: don't keep the strings of overwritten cells in the
 shared strings of later saves

---
 src/shared_strings_table.rs |  9 +++++++++
 src/workbook.rs             | 20 +++++++++++++++++---
 src/worksheet.rs            |  6 ++----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/shared_strings_table.rs b/src/shared_strings_table.rs
index 0a23358..60f33ba 100644
--- a/src/shared_strings_table.rs
+++ b/src/shared_strings_table.rs
@@ -54,4 +54,13 @@ impl SharedStringsTable {
             index
         });
     }
+    // Remove the strings that were added after the table had the given counts.
+    pub(crate) fn truncate(&mut self, count: u32, unique_count: u32) {
+        if self.unique_count > unique_count {
+            self.strings.retain(|_, index| *index < unique_count);
+        }
+
+        self.count = count;
+        self.unique_count = unique_count;
+    }
 }
diff --git a/src/workbook.rs b/src/workbook.rs
index 7e09a7e..bb13861 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2174,14 +2174,28 @@ impl Workbook {
         // Prepare worksheet tables.
         self.prepare_tables()?;
 
-        // Update the shared string table in each worksheet.
+        // Update the shared string table in each worksheet. The strings are only
+        // required during the save since the cells may change before the next one.
+        let string_table = self.string_table.clone();
+        let (count, unique_count) = {
+            let string_table = string_table.lock().unwrap();
+            (string_table.count, string_table.unique_count)
+        };
         for worksheet in &mut self.worksheets {
             if !worksheet.has_workbook_global_sst {
-                let string_table = self.string_table.clone();
-                worksheet.update_string_table_ids(string_table);
+                worksheet.update_string_table_ids(string_table.clone());
             }
         }
 
+        let result = self.save_package(writer);
+
+        string_table.lock().unwrap().truncate(count, unique_count);
+
+        result
+    }
+
+    // Assemble the xlsx file from the prepared workbook and worksheets.
+    fn save_package<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
         // Collect workbook level metadata to help generate the xlsx file.
         let mut package_options = PackagerOptions::new();
         package_options = self.set_package_options(package_options)?;
diff --git a/src/worksheet.rs b/src/worksheet.rs
index d1d7651..c11a3c9 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18448,10 +18448,8 @@ impl Worksheet {
                     | CellType::RichString {
                         string, string_id, ..
                     } => {
-                        if string_id.is_none() {
-                            let string_index = string_table.shared_string_index(Arc::clone(string));
-                            *string_id = Some(string_index);
-                        }
+                        let string_index = string_table.shared_string_index(Arc::clone(string));
+                        *string_id = Some(string_index);
                     }
                     _ => {}
                 }
-- 
2.43.0


From 1e3b1c6f6b25575f965f244a73a2ef1edb44d11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 13/71] fix: don't repeat the notes and buttons of a failed
 save in the next one

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index c11a3c9..4c989de 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16833,6 +16833,8 @@ impl Worksheet {
         self.table_relationships.clear();
         self.vml_drawing_relationships.clear();
         self.background_relationships.clear();
+        self.buttons_vml_info.clear();
+        self.comments_vml_info.clear();
     }
 
     // Check if any external relationships are required.
-- 
2.43.0


From 7437f6a2762919c4f25aca75408c5a0d2b518d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 14/71] fix: keep the local format index of table columns for
 the next save

---
 src/table.rs     | 6 ++++--
 src/worksheet.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index b579f1b..ec98e11 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1277,8 +1277,8 @@ impl Table {
             attributes.push(("totalsRowFunction", column.total_function.to_string()));
         }
 
-        if let Some(format) = &column.format {
-            attributes.push(("dataDxfId", format.dxf_index.to_string()));
+        if column.format.is_some() {
+            attributes.push(("dataDxfId", column.global_dxf_index.to_string()));
         }
 
         if column.formula.is_some() || matches!(&column.total_function, TableFunction::Custom(_)) {
@@ -1420,6 +1420,7 @@ pub struct TableColumn {
     pub(crate) formula: Option<Formula>,
     pub(crate) format: Option<Format>,
     pub(crate) header_format: Option<Format>,
+    pub(crate) global_dxf_index: u32,
 }
 
 impl TableColumn {
@@ -1433,6 +1434,7 @@ impl TableColumn {
             formula: None,
             format: None,
             header_format: None,
+            global_dxf_index: 0,
         }
     }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4c989de..3009b58 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16568,8 +16568,8 @@ impl Worksheet {
 
             // Change any column format local index from local to global.
             for column in &mut table.columns {
-                if let Some(format) = column.format.as_mut() {
-                    format.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
+                if let Some(format) = &column.format {
+                    column.global_dxf_index = self.global_dxf_indices[format.dxf_index as usize];
                 }
             }
 
-- 
2.43.0


From 2718a8bfca68aa0c19f2c24ef5395be5aecdd55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 15/71] fix: number the default table names again in each save

---
 src/table.rs     | 15 ++++++++++-----
 src/workbook.rs  |  8 +++++---
 src/worksheet.rs |  3 ---
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index ec98e11..6e9e25a 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1209,15 +1209,20 @@ impl Table {
         xml_end_tag(&mut self.writer, "table");
     }
 
+    // Get the user-defined table name, or the default name for the table index.
+    pub(crate) fn table_name(&self) -> String {
+        if self.name.is_empty() {
+            format!("Table{}", self.index)
+        } else {
+            self.name.clone()
+        }
+    }
+
     // Write the <table> element.
     fn write_table(&mut self) {
         let schema = "http://schemas.openxmlformats.org/spreadsheetml/2006/main".to_string();
         let range = self.cell_range.to_range_string();
-        let name = if self.name.is_empty() {
-            format!("Table{}", self.index)
-        } else {
-            self.name.clone()
-        };
+        let name = self.table_name();
 
         let mut attributes = vec![
             ("xmlns", schema),
diff --git a/src/workbook.rs b/src/workbook.rs
index bb13861..6862b04 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2366,11 +2366,13 @@ impl Workbook {
         // Check for duplicate table names.
         for worksheet in &self.worksheets {
             for table in &worksheet.tables {
-                if seen_table_names.contains(&table.name.to_lowercase()) {
-                    return Err(XlsxError::TableNameReused(table.name.to_string()));
+                let table_name = table.table_name();
+
+                if seen_table_names.contains(&table_name.to_lowercase()) {
+                    return Err(XlsxError::TableNameReused(table_name));
                 }
 
-                seen_table_names.insert(table.name.to_lowercase());
+                seen_table_names.insert(table_name.to_lowercase());
             }
         }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 3009b58..946d4b0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16562,9 +16562,6 @@ impl Worksheet {
     pub(crate) fn prepare_worksheet_tables(&mut self, mut table_id: u32) -> u32 {
         for table in &mut self.tables {
             table.index = table_id;
-            if table.name.is_empty() {
-                table.name = format!("Table{table_id}");
-            }
 
             // Change any column format local index from local to global.
             for column in &mut table.columns {
-- 
2.43.0


From 2b78b90ffc86991dd9c3d9309e2847b7146ac6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 16/71] fix: don't keep the default active and first sheet of a
 save for the next one

---
 src/packager.rs  |  4 ++--
 src/workbook.rs  |  9 ++++++---
 src/worksheet.rs | 13 ++++++++++++-
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index 48ac82b..01cb156 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -733,7 +733,7 @@ impl<W: Write + Seek + Send> Packager<W> {
         for worksheet in &workbook.worksheets {
             let sheet_name = &worksheet.name;
 
-            if !worksheet.is_chartsheet && worksheet.visible != Visible::VeryHidden {
+            if !worksheet.is_chartsheet && worksheet.visibility() != Visible::VeryHidden {
                 app.add_part_name(sheet_name);
 
                 num_worksheets += 1;
@@ -746,7 +746,7 @@ impl<W: Write + Seek + Send> Packager<W> {
         for worksheet in &workbook.worksheets {
             let sheet_name = &worksheet.name;
 
-            if worksheet.is_chartsheet && worksheet.visible != Visible::VeryHidden {
+            if worksheet.is_chartsheet && worksheet.visibility() != Visible::VeryHidden {
                 app.add_part_name(sheet_name);
 
                 num_chartsheets += 1;
diff --git a/src/workbook.rs b/src/workbook.rs
index 6862b04..45514a1 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2211,6 +2211,7 @@ impl Workbook {
     // sheet. If none has been set, then defaults to the first sheet, like Excel.
     fn set_active_worksheets(&mut self) {
         let mut active_index = 0;
+        self.first_sheet = 0;
 
         for (i, worksheet) in self.worksheets.iter().enumerate() {
             if worksheet.active {
@@ -2220,7 +2221,9 @@ impl Workbook {
                 self.first_sheet = i as u16;
             }
         }
-        self.worksheets[active_index].set_active(true);
+        for (i, worksheet) in self.worksheets.iter_mut().enumerate() {
+            worksheet.is_active_tab = i == active_index;
+        }
         self.active_tab = active_index as u16;
     }
 
@@ -2759,7 +2762,7 @@ impl Workbook {
                 package_options.num_worksheets += 1;
             }
 
-            if worksheet.visible == Visible::VeryHidden {
+            if worksheet.visibility() == Visible::VeryHidden {
                 package_options.worksheet_names.push(String::new());
             } else {
                 package_options.worksheet_names.push(sheet_name.clone());
@@ -2992,7 +2995,7 @@ impl Workbook {
 
         let mut worksheet_data = vec![];
         for worksheet in &self.worksheets {
-            worksheet_data.push((worksheet.name.clone(), worksheet.visible));
+            worksheet_data.push((worksheet.name.clone(), worksheet.visibility()));
         }
 
         for (index, data) in worksheet_data.iter().enumerate() {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 946d4b0..5e1d83f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1496,6 +1496,7 @@ pub struct Worksheet {
     pub(crate) selected: bool,
     pub(crate) visible: Visible,
     pub(crate) first_sheet: bool,
+    pub(crate) is_active_tab: bool,
     pub(crate) has_local_string_table: bool,
     pub(crate) has_dynamic_arrays: bool,
     pub(crate) print_area_defined_name: DefinedName,
@@ -1755,6 +1756,7 @@ impl Worksheet {
             selected: false,
             visible: Visible::Default,
             first_sheet: false,
+            is_active_tab: false,
             has_local_string_table: false,
             has_vml: false,
             has_dynamic_arrays: false,
@@ -16806,6 +16808,15 @@ impl Worksheet {
         }
     }
 
+    // Get the visibility of the worksheet. The active tab is always visible.
+    pub(crate) fn visibility(&self) -> Visible {
+        if self.is_active_tab {
+            Visible::Default
+        } else {
+            self.visible
+        }
+    }
+
     // Reset an worksheet global data or structures between saves.
     pub(crate) fn reset(&mut self) {
         xmlwriter::reset(&mut self.writer);
@@ -17751,7 +17762,7 @@ impl Worksheet {
             attributes.push(("rightToLeft", "1".to_string()));
         }
 
-        if self.selected {
+        if self.selected || self.is_active_tab {
             attributes.push(("tabSelected", "1".to_string()));
         }
 
-- 
2.43.0


From ae6396dab6cd6fe2d970021075bed4000960fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 17/71] fix: check for table overlaps before writing any of the
 table

---
 src/worksheet.rs | 64 +++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 5e1d83f..7216ccd 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8808,6 +8808,40 @@ impl Worksheet {
         table.cell_range = CellRange::new(first_row, first_col, last_row, last_col);
         table.initialize_columns(&default_headers)?;
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the table range overlaps any previous table range. This is a
+        // major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.table_cells.get(&(row, col)) {
+                    let previous_cell_range = self.table_ranges.get(*index).unwrap();
+                    return Err(XlsxError::TableRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
+        // Check that the table autofilter doesn't overlap the worksheet
+        // autofilter.
+        if table.show_autofilter {
+            for col in first_col..=last_col {
+                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
+                if let Some((filter_type, filter_range)) = filter_data {
+                    if *filter_type == FilterType::Worksheet {
+                        return Err(XlsxError::AutofilterRangeOverlaps(
+                            table.cell_range.to_error_string(),
+                            filter_range.to_error_string(),
+                        ));
+                    }
+                }
+            }
+        }
+
         let first_data_row = table.first_data_row();
         let last_data_row = table.last_data_row();
 
@@ -8873,43 +8907,17 @@ impl Worksheet {
             self.set_writing_ahead(false);
         }
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the table range overlaps any previous table range. This is a
-        // major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the cells of the table for range testing.
         let new_index = self.table_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.table_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.table_ranges.get(*index).unwrap();
-                        return Err(XlsxError::TableRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.table_cells.insert((row, col), new_index),
-                };
+                self.table_cells.insert((row, col), new_index);
             }
         }
 
         // Store the cells with the autofilter dropdown for the autofit calc.
         if table.show_autofilter {
             for col in first_col..=last_col {
-                // Check that the table autofilter doesn't overlap the worksheet
-                // autofilter.
-                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
-                if let Some((filter_type, filter_range)) = filter_data {
-                    if *filter_type == FilterType::Worksheet {
-                        return Err(XlsxError::AutofilterRangeOverlaps(
-                            table.cell_range.to_error_string(),
-                            filter_range.to_error_string(),
-                        ));
-                    }
-                }
-
                 self.cells_with_autofilter.insert(
                     (first_row, col),
                     (FilterType::Table, table.cell_range.clone()),
-- 
2.43.0


From 9d618a91a617d153734c5d6995bc7bc4c165ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 18/71] fix: size and order the tables of serialized structs
 again in each save

---
 src/serializer.rs | 32 +++++++++++++++-----------------
 src/workbook.rs   | 15 ++++++++++++++-
 src/worksheet.rs  | 32 ++++++++++++++++++++++++++++++--
 3 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/src/serializer.rs b/src/serializer.rs
index db42d67..4fd23c8 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -2072,14 +2072,15 @@ impl SerializerState {
     }
 
     // Get all/any tables defined for serialization areas.
-    pub(crate) fn get_tables(&mut self) -> Vec<TableData> {
-        let mut tables = vec![];
+    pub(crate) fn get_tables(&self) -> Vec<TableData> {
+        let mut tables: Vec<_> = self
+            .structs
+            .values()
+            .filter_map(SerializationHeaderConfig::get_table)
+            .collect();
 
-        for header_config in self.structs.values_mut() {
-            if let Some(table) = header_config.get_table() {
-                tables.push(table);
-            }
-        }
+        // Keep the tables in a fixed order.
+        tables.sort_by_key(|table| (table.0, table.1));
 
         tables
     }
@@ -2100,19 +2101,16 @@ pub(crate) struct SerializationHeaderConfig {
 
 impl SerializationHeaderConfig {
     // Get table object and dimensions for the a serialization area.
-    pub(crate) fn get_table(&mut self) -> Option<TableData> {
-        let table = self.table.take();
-
-        match table {
-            Some(table) => Some(TableData(
+    pub(crate) fn get_table(&self) -> Option<TableData> {
+        self.table.as_ref().map(|table| {
+            TableData(
                 self.min_row,
                 self.min_col,
-                self.max_row - 1,
+                self.max_row.saturating_sub(1),
                 self.max_col,
-                table,
-            )),
-            None => None,
-        }
+                table.clone(),
+            )
+        })
     }
 }
 
diff --git a/src/workbook.rs b/src/workbook.rs
index 45514a1..c5759d1 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2021,11 +2021,24 @@ impl Workbook {
         }
     }
 
+    // Internal function to save the workbook and then remove the data that is
+    // only required during a save.
+    fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+        let result = self.prepare_and_save(writer);
+
+        #[cfg(feature = "serde")]
+        for worksheet in &mut self.worksheets {
+            worksheet.remove_serialized_tables();
+        }
+
+        result
+    }
+
     // Internal function to prepare the workbook and other component files for
     // writing to the xlsx file.
     #[allow(clippy::similar_names)]
     #[allow(clippy::too_many_lines)]
-    fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+    fn prepare_and_save<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
         // Reset workbook and worksheet state data between saves.
         self.reset();
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7216ccd..9b63438 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1643,6 +1643,9 @@ pub struct Worksheet {
 
     #[cfg(feature = "serde")]
     pub(crate) serializer_state: SerializerState,
+
+    #[cfg(feature = "serde")]
+    num_serialized_tables: usize,
 }
 
 impl Default for Worksheet {
@@ -1900,6 +1903,9 @@ impl Worksheet {
 
             #[cfg(feature = "serde")]
             serializer_state: SerializerState::new(),
+
+            #[cfg(feature = "serde")]
+            num_serialized_tables: 0,
         }
     }
 
@@ -12114,7 +12120,7 @@ impl Worksheet {
         if let Some(header_config) = self
             .serializer_state
             .structs
-            .get_mut(&header_options.struct_name)
+            .get(&header_options.struct_name)
         {
             if let Some(table_data) = header_config.get_table() {
                 self.write_serialized_table(&table_data)?;
@@ -12180,18 +12186,40 @@ impl Worksheet {
         }
     }
 
-    // Add any tables that were added as part of serialization formatting.
+    // Add any tables that were added as part of serialization formatting. These
+    // are only added for the duration of a save since there may be more data
+    // before the next one.
     #[cfg(feature = "serde")]
     pub(crate) fn store_serialized_tables(&mut self) -> Result<&mut Worksheet, XlsxError> {
         let tables = self.serializer_state.get_tables();
 
         for table_data in tables {
             self.write_serialized_table(&table_data)?;
+            self.num_serialized_tables += 1;
         }
 
         Ok(self)
     }
 
+    // Remove the serialization tables that were added for a save.
+    #[cfg(feature = "serde")]
+    pub(crate) fn remove_serialized_tables(&mut self) {
+        let num_tables = self.tables.len() - self.num_serialized_tables;
+
+        for table in self.tables.drain(num_tables..) {
+            if table.show_autofilter {
+                let range = &table.cell_range;
+                for col in range.first_col..=range.last_col {
+                    self.cells_with_autofilter.remove(&(range.first_row, col));
+                }
+            }
+        }
+
+        self.table_ranges.truncate(num_tables);
+        self.table_cells.retain(|_, index| *index < num_tables);
+        self.num_serialized_tables = 0;
+    }
+
     // Write a table that is part of serialization formatting.
     #[cfg(feature = "serde")]
     pub(crate) fn write_serialized_table(
-- 
2.43.0


From 55970f5666bf443fb273b438ae24915a83477018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 19/71] fix: don't write a partial chart cache for constant
 memory worksheets and empty rows

---
 src/worksheet.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9b63438..963fbe9 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16981,7 +16981,14 @@ impl Worksheet {
         let mut data = vec![];
 
         for row_num in first_row..=last_row {
-            match self.data_table.get(&row_num) {
+            // Only the current row is in memory in constant memory mode, so we
+            // don't cache any of the range to avoid writing a part of it.
+            let columns = match self.use_constant_memory {
+                true => None,
+                false => self.data_table.get(&row_num),
+            };
+
+            match columns {
                 Some(columns) => {
                     for col_num in first_col..=last_col {
                         match columns.get(&col_num) {
@@ -17009,7 +17016,7 @@ impl Worksheet {
                         }
                     }
                 }
-                None => data.push(String::new()),
+                None => data.extend((first_col..=last_col).map(|_| String::new())),
             }
         }
 
-- 
2.43.0


From 2f537c9f512722e2e21a72d504cbe8c1fe90b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 20/71] fix: number embedded images of constant memory
 worksheets when they are written

Flushing the row of a constant memory or low memory worksheet that contains an
embedded image panicked since the workbook wide image ids were only known in
the save.
---
 src/image.rs     | 28 ++++++++++++++++++++++++++++
 src/workbook.rs  | 28 +++++++++++++---------------
 src/worksheet.rs | 12 ++++++++++++
 3 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 2f52c3a..34ada82 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -9,6 +9,7 @@
 mod tests;
 
 use std::collections::hash_map::DefaultHasher;
+use std::collections::HashMap;
 use std::fs::File;
 use std::hash::{Hash, Hasher};
 use std::io::BufReader;
@@ -1201,3 +1202,30 @@ fn unpack_u32_from_be_bytes(data: &[u8], offset: usize) -> u32 {
 fn unpack_u32_from_le_bytes(data: &[u8], offset: usize) -> u32 {
     u32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
 }
+
+// -----------------------------------------------------------------------
+// EmbeddedImageTable
+// -----------------------------------------------------------------------
+
+// A struct to store the unique embedded images of a workbook and their 1
+// indexed ids.
+#[derive(Clone, Debug, Default)]
+pub(crate) struct EmbeddedImageTable {
+    pub(crate) images: Vec<Image>,
+    ids: HashMap<String, u32>,
+}
+
+impl EmbeddedImageTable {
+    // Get the id of an image, adding it to the table if required.
+    pub(crate) fn image_id(&mut self, image: &Image) -> u32 {
+        if let Some(id) = self.ids.get(&image.hash) {
+            return *id;
+        }
+
+        self.images.push(image.clone());
+        let id = self.images.len() as u32;
+        self.ids.insert(image.hash.clone(), id);
+
+        id
+    }
+}
diff --git a/src/workbook.rs b/src/workbook.rs
index c5759d1..e19c8c4 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -232,6 +232,7 @@ use std::path::PathBuf;
 use crate::error::XlsxError;
 use crate::feature_property_bag::FeaturePropertyBagTypes;
 use crate::format::Format;
+use crate::image::EmbeddedImageTable;
 use crate::packager::Packager;
 use crate::packager::PackagerOptions;
 use crate::shared_strings_table::SharedStringsTable;
@@ -337,6 +338,7 @@ pub struct Workbook {
     pub(crate) string_table: Arc<Mutex<SharedStringsTable>>,
     pub(crate) feature_property_bags: HashSet<FeaturePropertyBagTypes>,
 
+    constant_memory_images: Arc<Mutex<EmbeddedImageTable>>,
     xf_indices: Arc<RwLock<HashMap<Format, u32>>>,
     dxf_indices: HashMap<Format, u32>,
     active_tab: u16,
@@ -418,6 +420,7 @@ impl Workbook {
             defined_names: vec![],
             user_defined_names: vec![],
             xf_indices: Arc::new(RwLock::new(HashMap::from([(Format::default(), 0)]))),
+            constant_memory_images: Arc::new(Mutex::new(EmbeddedImageTable::default())),
             string_table: Arc::new(Mutex::new(SharedStringsTable::new())),
             dxf_indices: HashMap::new(),
             embedded_images: vec![],
@@ -565,6 +568,7 @@ impl Workbook {
 
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
+        worksheet.constant_memory_images = Arc::clone(&self.constant_memory_images);
 
         self.worksheets.push(worksheet);
         let worksheet = self.worksheets.last_mut().unwrap();
@@ -634,6 +638,7 @@ impl Workbook {
 
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
+        worksheet.constant_memory_images = Arc::clone(&self.constant_memory_images);
 
         worksheet.string_table = Arc::clone(&self.string_table);
         worksheet.has_workbook_global_sst = true;
@@ -678,6 +683,7 @@ impl Workbook {
 
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
+        worksheet.constant_memory_images = Arc::clone(&self.constant_memory_images);
 
         worksheet
     }
@@ -716,6 +722,7 @@ impl Workbook {
 
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
+        worksheet.constant_memory_images = Arc::clone(&self.constant_memory_images);
 
         worksheet.string_table = Arc::clone(&self.string_table);
         worksheet.has_workbook_global_sst = true;
@@ -2275,10 +2282,11 @@ impl Workbook {
     // worksheet will have a local index to an embedded cell image. We need to
     // map these local references to a workbook/global id that takes into
     // account duplicate images.
+    //
+    // The images in "constant memory" worksheets already have a global id since
+    // they are written before the workbook is saved.
     fn prepare_embedded_images(&mut self) {
-        let mut embedded_images = vec![];
-        let mut image_ids: HashMap<String, u32> = HashMap::new();
-        let mut global_image_id = 0;
+        let mut embedded_images = self.constant_memory_images.lock().unwrap().clone();
 
         for worksheet in &mut self.worksheets {
             if worksheet.embedded_images.is_empty() {
@@ -2287,23 +2295,13 @@ impl Workbook {
 
             let mut global_embedded_image_ids = vec![];
             for image in &worksheet.embedded_images {
-                let image_id = match image_ids.get(&image.hash) {
-                    Some(image_id) => *image_id,
-                    None => {
-                        global_image_id += 1;
-                        embedded_images.push(image.clone());
-                        image_ids.insert(image.hash.clone(), global_image_id);
-                        global_image_id
-                    }
-                };
-
-                global_embedded_image_ids.push(image_id);
+                global_embedded_image_ids.push(embedded_images.image_id(image));
             }
 
             worksheet.global_embedded_image_indices = global_embedded_image_ids;
         }
 
-        self.embedded_images = embedded_images;
+        self.embedded_images = embedded_images.images;
     }
 
     // Convert the images in the workbooks into drawing files and rel links.
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 963fbe9..f6ed1d2 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1384,6 +1384,7 @@ use crate::drawing::{Drawing, DrawingCoordinates, DrawingInfo, DrawingObject, Dr
 use crate::error::XlsxError;
 use crate::format::Format;
 use crate::formula::Formula;
+use crate::image::EmbeddedImageTable;
 use crate::shared_strings_table::SharedStringsTable;
 use crate::styles::Styles;
 use crate::vml::VmlInfo;
@@ -1530,6 +1531,7 @@ pub struct Worksheet {
     pub(crate) use_inline_strings: bool,
     pub(crate) current_row: RowNum,
     pub(crate) workbook_xf_indices: Arc<RwLock<HashMap<Format, u32>>>,
+    pub(crate) constant_memory_images: Arc<Mutex<EmbeddedImageTable>>,
     pub(crate) string_table: Arc<Mutex<SharedStringsTable>>,
 
     pub(crate) has_workbook_global_xfs: bool,
@@ -1889,6 +1891,7 @@ impl Worksheet {
             current_row: 0,
             workbook_xf_indices: Arc::new(RwLock::new(HashMap::new())),
             string_table: Arc::new(Mutex::new(SharedStringsTable::new())),
+            constant_memory_images: Arc::new(Mutex::new(EmbeddedImageTable::default())),
             has_workbook_global_xfs: false,
             has_workbook_global_sst: false,
 
@@ -15460,6 +15463,15 @@ impl Worksheet {
                 let image_id = self.embedded_image_ids.len() as u32;
                 self.embedded_image_ids.insert(image.hash.clone(), image_id);
                 self.embedded_images.push(image.clone());
+
+                // The cells of constant memory worksheets are written before
+                // the ids are assigned in the save so they need one now.
+                if self.use_constant_memory {
+                    let mut images = self.constant_memory_images.lock().unwrap();
+                    let global_id = images.image_id(image);
+                    self.global_embedded_image_indices.push(global_id);
+                }
+
                 image_id
             }
         };
-- 
2.43.0


From bb5042035dcbe97f2fd43d8570c7d986cd89e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 21/71] fix: keep the alternative text of each embedded image

Embedded images with the same data but different alternative text were all
stored with the text of the first one.
---
 src/image.rs     | 11 +++++++++--
 src/worksheet.rs |  5 +++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 34ada82..df9c0ab 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -931,6 +931,12 @@ impl Image {
         Ok(())
     }
 
+    // Get a key for the content that is stored for an embedded image, which
+    // includes the alternative text.
+    pub(crate) fn embedded_key(&self) -> String {
+        format!("{}:{}:{}", self.hash, self.decorative, self.alt_text)
+    }
+
     // Extract width and height information from a PNG file.
     fn process_png(&mut self, data: &[u8]) {
         let mut offset: usize = 8;
@@ -1218,13 +1224,14 @@ pub(crate) struct EmbeddedImageTable {
 impl EmbeddedImageTable {
     // Get the id of an image, adding it to the table if required.
     pub(crate) fn image_id(&mut self, image: &Image) -> u32 {
-        if let Some(id) = self.ids.get(&image.hash) {
+        let key = image.embedded_key();
+        if let Some(id) = self.ids.get(&key) {
             return *id;
         }
 
         self.images.push(image.clone());
         let id = self.images.len() as u32;
-        self.ids.insert(image.hash.clone(), id);
+        self.ids.insert(key, id);
 
         id
     }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index f6ed1d2..b73c4ef 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15457,11 +15457,12 @@ impl Worksheet {
             )));
         }
 
-        let image_id = match self.embedded_image_ids.get(&image.hash) {
+        let image_key = image.embedded_key();
+        let image_id = match self.embedded_image_ids.get(&image_key) {
             Some(image_id) => *image_id,
             None => {
                 let image_id = self.embedded_image_ids.len() as u32;
-                self.embedded_image_ids.insert(image.hash.clone(), image_id);
+                self.embedded_image_ids.insert(image_key, image_id);
                 self.embedded_images.push(image.clone());
 
                 // The cells of constant memory worksheets are written before
-- 
2.43.0


From f8a750931f1611ffe7c3acec288a6d6a54040121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 22/71] fix: don't give a format a second index when two
 threads add it at once

Two threads writing constant memory or low memory worksheets could both find
the format missing and number it. The indices of the formats added after that
were then used twice.
---
 src/workbook.rs  | 7 ++++++-
 src/worksheet.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index e19c8c4..5ac4a72 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2545,8 +2545,13 @@ impl Workbook {
         // add the format and create a new index.
         drop(xf_indices);
 
-        // Add the new format and give it an index.
+        // Add the new format and give it an index, unless another thread added it
+        // in the meantime.
         let mut xf_indices = self.xf_indices.write().expect("RwLock poisoned");
+        if let Some(xf_index) = xf_indices.get(format) {
+            return *xf_index;
+        }
+
         let xf_index = xf_indices.len() as u32;
         xf_indices.insert(format.clone(), xf_index);
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index b73c4ef..9fcba73 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16083,8 +16083,13 @@ impl Worksheet {
         // add the format and create a new index.
         drop(xf_indices);
 
-        // Add the new format and give it an index.
+        // Add the new format and give it an index, unless another thread added it
+        // in the meantime.
         let mut xf_indices = self.workbook_xf_indices.write().expect("RwLock poisoned");
+        if let Some(xf_index) = xf_indices.get(format) {
+            return *xf_index;
+        }
+
         let xf_index = xf_indices.len() as u32;
         xf_indices.insert(format.clone(), xf_index);
 
-- 
2.43.0


From 6088bbc25ad44dfbc137358f9bc4e09cb4453877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 23/71] fix: return an error for truncated image files

The headers of truncated or damaged image files were read past the end of the
data, which panicked.
---
 src/image.rs | 103 +++++++++++++++++++++++++++++----------------------
 1 file changed, 59 insertions(+), 44 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index df9c0ab..6fd646c 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -898,19 +898,21 @@ impl Image {
     fn process_image(&mut self) -> Result<(), XlsxError> {
         let data = self.data.clone();
 
-        let png_marker = &data[1..4];
-        let jpg_marker = unpack_u16_from_be_bytes(&data, 0);
-        let bmp_marker = &data[0..2];
-        let gif_marker = &data[0..4];
-
-        if png_marker == "PNG".as_bytes() {
-            self.process_png(&data);
-        } else if jpg_marker == 0xFFD8 {
-            self.process_jpg(&data);
-        } else if bmp_marker == "BM".as_bytes() {
-            self.process_bmp(&data);
-        } else if gif_marker == "GIF8".as_bytes() {
-            self.process_gif(&data);
+        let is_complete = if data.get(1..4) == Some("PNG".as_bytes()) {
+            self.process_png(&data)
+        } else if data.starts_with(&[0xFF, 0xD8]) {
+            self.process_jpg(&data)
+        } else if data.starts_with("BM".as_bytes()) {
+            self.process_bmp(&data)
+        } else if data.starts_with("GIF8".as_bytes()) {
+            self.process_gif(&data)
+        } else {
+            return Err(XlsxError::UnknownImageType);
+        };
+
+        // Check that the image data wasn't truncated.
+        if is_complete.is_none() {
+            return Err(XlsxError::ImageDimensionError);
         }
 
         // Check that we read a valid image.
@@ -938,7 +940,7 @@ impl Image {
     }
 
     // Extract width and height information from a PNG file.
-    fn process_png(&mut self, data: &[u8]) {
+    fn process_png(&mut self, data: &[u8]) -> Option<()> {
         let mut offset: usize = 8;
         let mut width: u32 = 0;
         let mut height: u32 = 0;
@@ -949,20 +951,20 @@ impl Image {
         // Search through the image data to read the height and width in the
         // IHDR element. Also read the DPI in the pHYs element, if present.
         while offset < data_length {
-            let marker = &data[offset + 4..offset + 8];
-            let length = unpack_u32_from_be_bytes(data, offset);
+            let marker = data.get(offset + 4..offset + 8)?;
+            let length = unpack_u32_from_be_bytes(data, offset)?;
 
             // Read the image dimensions.
             if marker == "IHDR".as_bytes() {
-                width = unpack_u32_from_be_bytes(data, offset + 8);
-                height = unpack_u32_from_be_bytes(data, offset + 12);
+                width = unpack_u32_from_be_bytes(data, offset + 8)?;
+                height = unpack_u32_from_be_bytes(data, offset + 12)?;
             }
 
             // Read the image DPI values.
             if marker == "pHYs".as_bytes() {
-                let units = &data[offset + 16];
-                let x_density = unpack_u32_from_be_bytes(data, offset + 8);
-                let y_density = unpack_u32_from_be_bytes(data, offset + 12);
+                let units = data.get(offset + 16)?;
+                let x_density = unpack_u32_from_be_bytes(data, offset + 8)?;
+                let y_density = unpack_u32_from_be_bytes(data, offset + 12)?;
 
                 if *units == 1 && x_density > 0 && y_density > 0 {
                     width_dpi = f64::from(x_density) * 0.0254;
@@ -983,10 +985,12 @@ impl Image {
         self.width_dpi = width_dpi;
         self.height_dpi = height_dpi;
         self.image_type = XlsxImageType::Png;
+
+        Some(())
     }
 
     // Extract width and height information from a PNG file.
-    fn process_jpg(&mut self, data: &[u8]) {
+    fn process_jpg(&mut self, data: &[u8]) -> Option<()> {
         let mut offset: usize = 2;
         let mut height: u32 = 0;
         let mut width: u32 = 0;
@@ -997,8 +1001,8 @@ impl Image {
         // Search through the image data to read the height and width in the
         // IHDR element. Also read the DPI in the pHYs element, if present.
         while offset < data_length {
-            let marker = unpack_u16_from_be_bytes(data, offset);
-            let length = unpack_u16_from_be_bytes(data, offset + 2);
+            let marker = unpack_u16_from_be_bytes(data, offset)?;
+            let length = unpack_u16_from_be_bytes(data, offset + 2)?;
 
             // Read the height and width in the 0xFFCn elements (except C4, C8
             // and CC which aren't SOF markers).
@@ -1007,15 +1011,15 @@ impl Image {
                 && marker != 0xFFC8
                 && marker != 0xFFCC
             {
-                height = u32::from(unpack_u16_from_be_bytes(data, offset + 5));
-                width = u32::from(unpack_u16_from_be_bytes(data, offset + 7));
+                height = u32::from(unpack_u16_from_be_bytes(data, offset + 5)?);
+                width = u32::from(unpack_u16_from_be_bytes(data, offset + 7)?);
             }
 
             // Read the DPI in the 0xFFE0 element.
             if marker == 0xFFE0 {
-                let units = &data[offset + 11];
-                let x_density = unpack_u16_from_be_bytes(data, offset + 12);
-                let y_density = unpack_u16_from_be_bytes(data, offset + 14);
+                let units = data.get(offset + 11)?;
+                let x_density = unpack_u16_from_be_bytes(data, offset + 12)?;
+                let y_density = unpack_u16_from_be_bytes(data, offset + 14)?;
 
                 if *units == 1 {
                     width_dpi = f64::from(x_density);
@@ -1049,33 +1053,39 @@ impl Image {
         self.width_dpi = width_dpi;
         self.height_dpi = height_dpi;
         self.image_type = XlsxImageType::Jpg;
+
+        Some(())
     }
 
     // Extract width and height information from a BMP file.
-    fn process_bmp(&mut self, data: &[u8]) {
+    fn process_bmp(&mut self, data: &[u8]) -> Option<()> {
         let width_dpi: f64 = 96.0;
         let height_dpi: f64 = 96.0;
 
-        let width = unpack_u32_from_le_bytes(data, 18);
-        let height = unpack_u32_from_le_bytes(data, 22);
+        let width = unpack_u32_from_le_bytes(data, 18)?;
+        let height = unpack_u32_from_le_bytes(data, 22)?;
 
         self.width = f64::from(width);
         self.height = f64::from(height);
         self.width_dpi = width_dpi;
         self.height_dpi = height_dpi;
         self.image_type = XlsxImageType::Bmp;
+
+        Some(())
     }
 
     // Extract width and height information from a GIF file.
-    fn process_gif(&mut self, data: &[u8]) {
-        let width = u32::from(unpack_u16_from_le_bytes(data, 6));
-        let height = u32::from(unpack_u16_from_le_bytes(data, 8));
+    fn process_gif(&mut self, data: &[u8]) -> Option<()> {
+        let width = u32::from(unpack_u16_from_le_bytes(data, 6)?);
+        let height = u32::from(unpack_u16_from_le_bytes(data, 8)?);
 
         self.width = f64::from(width);
         self.height = f64::from(height);
         self.width_dpi = 96.0;
         self.height_dpi = 96.0;
         self.image_type = XlsxImageType::Gif;
+
+        Some(())
     }
 }
 
@@ -1192,21 +1202,26 @@ impl XlsxImageType {
     }
 }
 
-// Some helper functions to extract 2 and 4 byte integers from image data.
-fn unpack_u16_from_be_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_be_bytes(data[offset..offset + 2].try_into().unwrap())
+// Some helper functions to extract 2 and 4 byte integers from image data. They
+// return None if the data is too short.
+fn unpack_u16_from_be_bytes(data: &[u8], offset: usize) -> Option<u16> {
+    let bytes = data.get(offset..offset + 2)?;
+    Some(u16::from_be_bytes(bytes.try_into().ok()?))
 }
 
-fn unpack_u16_from_le_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_le_bytes(data[offset..offset + 2].try_into().unwrap())
+fn unpack_u16_from_le_bytes(data: &[u8], offset: usize) -> Option<u16> {
+    let bytes = data.get(offset..offset + 2)?;
+    Some(u16::from_le_bytes(bytes.try_into().ok()?))
 }
 
-fn unpack_u32_from_be_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_be_bytes(data[offset..offset + 4].try_into().unwrap())
+fn unpack_u32_from_be_bytes(data: &[u8], offset: usize) -> Option<u32> {
+    let bytes = data.get(offset..offset + 4)?;
+    Some(u32::from_be_bytes(bytes.try_into().ok()?))
 }
 
-fn unpack_u32_from_le_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
+fn unpack_u32_from_le_bytes(data: &[u8], offset: usize) -> Option<u32> {
+    let bytes = data.get(offset..offset + 4)?;
+    Some(u32::from_le_bytes(bytes.try_into().ok()?))
 }
 
 // -----------------------------------------------------------------------
-- 
2.43.0


From 3843dbfd97f5e4781be95925d0df82f84203585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 24/71] fix: limit the position of objects to the last row and
 column of the worksheet

Objects that extend past the end of the worksheet, or with a default row height
of 0, overflowed the row or column number of their position or looped without
end.
---
 src/worksheet.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9fcba73..39d3358 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16732,13 +16732,17 @@ impl Worksheet {
         }
         y_abs += y1;
 
+        // The following positions are limited to the last column and row of the
+        // worksheet.
+
         // Adjust start col for offsets that are greater than the col width.
         loop {
             let col_size = self.column_pixel_width(col_start, object.object_movement());
-            if x1 >= col_size {
+            if x1 >= col_size && col_start < COL_MAX - 1 {
                 x1 -= col_size;
                 col_start += 1;
             } else {
+                x1 = cmp::min(x1, col_size);
                 break;
             }
         }
@@ -16746,10 +16750,11 @@ impl Worksheet {
         // Adjust start row for offsets that are greater than the row height.
         loop {
             let row_size = self.row_pixel_height(row_start, object.object_movement());
-            if y1 >= row_size {
+            if y1 >= row_size && row_start < ROW_MAX - 1 {
                 y1 -= row_size;
                 row_start += 1;
             } else {
+                y1 = cmp::min(y1, row_size);
                 break;
             }
         }
@@ -16765,10 +16770,11 @@ impl Worksheet {
         // Subtract the underlying cell widths to find the end cell.
         loop {
             let col_size = f64::from(self.column_pixel_width(col_end, object.object_movement()));
-            if x2 >= col_size {
+            if x2 >= col_size && col_end < COL_MAX - 1 {
                 x2 -= col_size;
                 col_end += 1;
             } else {
+                x2 = x2.min(col_size);
                 break;
             }
         }
@@ -16776,10 +16782,11 @@ impl Worksheet {
         //Subtract the underlying cell heights to find the end cell.
         loop {
             let row_size = f64::from(self.row_pixel_height(row_end, object.object_movement()));
-            if y2 >= row_size {
+            if y2 >= row_size && row_end < ROW_MAX - 1 {
                 y2 -= row_size;
                 row_end += 1;
             } else {
+                y2 = y2.min(row_size);
                 break;
             }
         }
-- 
2.43.0


From 00e9ee5af705bc74d7045a4dad528580f089cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 25/71] fix: don't keep the visibility of show_all_notes() for
 later saves

---
 src/worksheet.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 39d3358..d8c4f99 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16468,14 +16468,9 @@ impl Worksheet {
         let mut button_id = 1;
         let mut note_count = 0;
 
-        // Modify Note visibility and author according to worksheet settings.
+        // Modify the Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-                // Set all notes visible if required.
-                if self.show_all_notes && note.is_visible.is_none() {
-                    note.is_visible = Some(true);
-                }
-
                 // Check for a user defined author name.
                 let Some(note_author) = &note.author else {
                     continue;
@@ -16501,8 +16496,14 @@ impl Worksheet {
                 let note_row = note.row();
                 let note_col = note.col();
 
+                // Set all notes visible if required.
+                let mut note = note.clone();
+                if self.show_all_notes && note.is_visible.is_none() {
+                    note.is_visible = Some(true);
+                }
+
                 let mut vml_info = note.vml_info();
-                vml_info.drawing_info = self.position_object_pixels(note_row, note_col, note);
+                vml_info.drawing_info = self.position_object_pixels(note_row, note_col, &note);
                 vml_info.row = *cell_row;
                 vml_info.col = *cell_col;
 
-- 
2.43.0


From 07860ec9258a72f2fbd2954ff459f0a60976f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 26/71] fix: write the note authors in the order of their ids

The notes referred to the authors by the order of their first use but they were
written in alphabetical order. The authors of previous saves were also kept.
---
 src/packager.rs  | 6 +++++-
 src/worksheet.rs | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/packager.rs b/src/packager.rs
index 01cb156..1540a19 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -884,7 +884,11 @@ impl<W: Write + Seek + Send> Packager<W> {
 
                 let mut comment = Comment::new();
                 comment.notes = worksheet.notes.clone();
-                comment.note_authors = worksheet.note_authors.keys().cloned().collect();
+
+                // The notes refer to the authors in the order of their ids.
+                let mut authors: Vec<_> = worksheet.note_authors.iter().collect();
+                authors.sort_by_key(|(_, id)| **id);
+                comment.note_authors = authors.into_iter().map(|(name, _)| name.clone()).collect();
 
                 comment.assemble_xml_file();
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index d8c4f99..c7139e8 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16468,6 +16468,9 @@ impl Worksheet {
         let mut button_id = 1;
         let mut note_count = 0;
 
+        // Remove the authors of any previous save, apart from the default one.
+        self.note_authors.retain(|_, id| *id == 0);
+
         // Modify the Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-- 
2.43.0


From f292ea04629f5dcdaf3b8fa087fdf3f5e96cea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 27/71] fix: don't change the worksheet in calls that are
 rejected

Calls that returned an error after their first check had already changed the
worksheet dimensions, written the cells of a merged range that overlaps another
one, or grouped a part of the rows or columns.
---
 src/worksheet.rs | 144 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 103 insertions(+), 41 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index c7139e8..34dbd35 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -5006,8 +5006,8 @@ impl Worksheet {
         format: &Format,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -5022,9 +5022,40 @@ impl Worksheet {
             return Err(XlsxError::MergeRangeSingleCell);
         }
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the merged range overlaps any previous merged range. This is
+        // a major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.merged_cells.get(&(row, col)) {
+                    let previous_cell_range = self.merged_ranges.get(*index).unwrap();
+                    return Err(XlsxError::MergeRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
         // Write the first cell in the range.
         self.write_string_with_format(first_row, first_col, string, format)?;
 
+        // Store the merge range if everything was okay.
+        let new_index = self.merged_ranges.len();
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                self.merged_cells.insert((row, col), new_index);
+            }
+        }
+        self.merged_ranges.push(cell_range);
+
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Pad out the rest of the range with formatted blanks cells. We split
         // this into the first row and subsequent rows to allow us to handle
         // "constant mode" write-ahead.
@@ -5040,31 +5071,6 @@ impl Worksheet {
         }
         self.set_writing_ahead(false);
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the merged range overlaps any previous merged range. This is
-        // a major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
-        let new_index = self.merged_ranges.len();
-        for row in first_row..=last_row {
-            for col in first_col..=last_col {
-                match self.merged_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.merged_ranges.get(*index).unwrap();
-                        return Err(XlsxError::MergeRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.merged_cells.insert((row, col), new_index),
-                };
-            }
-        }
-
-        // Store the merge range if everything was okay.
-        self.merged_ranges.push(cell_range);
-
         Ok(self)
     }
 
@@ -5783,7 +5789,7 @@ impl Worksheet {
         note: &Note,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check row and columns are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -5793,6 +5799,9 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Set the cell that the Note refers to. This is different form the cell
         // where the note appears.
         let mut note = note.clone();
@@ -7022,10 +7031,15 @@ impl Worksheet {
         first_row: RowNum,
         last_row: RowNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the row after the collapsed group.
-        self.set_collapsed_row(last_row + 1)?;
+        // Check the row after the collapsed group is in the allowed range.
+        if !self.check_dimensions_only(last_row.saturating_add(1), 0) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
+        self.set_grouped_rows(first_row, last_row, true)?;
 
-        self.set_grouped_rows(first_row, last_row, true)
+        // Set the collapsed property to the row after the collapsed group.
+        self.set_collapsed_row(last_row + 1)
     }
 
     /// Group a range of columns into a worksheet outline group.
@@ -7396,10 +7410,15 @@ impl Worksheet {
         first_col: ColNum,
         last_col: ColNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the column after the collapsed group.
-        self.set_collapsed_column(last_col + 1)?;
+        // Check the column after the collapsed group is in the allowed range.
+        if !self.check_dimensions_only(0, last_col.saturating_add(1)) {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
+        self.set_grouped_columns(first_col, last_col, true)?;
 
-        self.set_grouped_columns(first_col, last_col, true)
+        // Set the collapsed property to the column after the collapsed group.
+        self.set_collapsed_column(last_col + 1)
     }
 
     /// Place the row outline group expand/collapse symbols above the range.
@@ -15120,7 +15139,7 @@ impl Worksheet {
         }
 
         // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15129,6 +15148,9 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15185,7 +15207,7 @@ impl Worksheet {
         }
 
         // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15194,6 +15216,9 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15282,8 +15307,8 @@ impl Worksheet {
         is_dynamic: bool,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -15293,6 +15318,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15445,7 +15474,7 @@ impl Worksheet {
         format: Option<&Format>,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check row and columns are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15457,6 +15486,9 @@ impl Worksheet {
             )));
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         let image_key = image.embedded_key();
         let image_id = match self.embedded_image_ids.get(&image_key) {
             Some(image_id) => *image_id,
@@ -17236,7 +17268,9 @@ impl Worksheet {
         let min_col = self.get_min_col();
 
         // Check rows are in the allowed range.
-        if !self.check_dimensions(first_row, min_col) || !self.check_dimensions(last_row, min_col) {
+        if !self.check_dimensions_only(first_row, min_col)
+            || !self.check_dimensions_only(last_row, min_col)
+        {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17245,6 +17279,19 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits.
+        for row in first_row..=last_row {
+            if let Some(row_options) = self.changed_rows.get(&row) {
+                if row_options.level + 1 > 7 {
+                    return Err(XlsxError::MaxGroupLevelExceeded);
+                }
+            }
+        }
+
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(first_row, min_col);
+        self.check_dimensions(last_row, min_col);
+
         // Write group outline for each row.
         for row in first_row..=last_row {
             self.set_grouped_row(row, collapsed)?;
@@ -17334,7 +17381,9 @@ impl Worksheet {
         let min_row = self.get_min_row();
 
         // Check columns are in the allowed range.
-        if !self.check_dimensions(min_row, first_col) || !self.check_dimensions(min_row, last_col) {
+        if !self.check_dimensions_only(min_row, first_col)
+            || !self.check_dimensions_only(min_row, last_col)
+        {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17343,6 +17392,19 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits.
+        for col in first_col..=last_col {
+            if let Some(col_options) = self.changed_cols.get(&col) {
+                if col_options.level + 1 > 7 {
+                    return Err(XlsxError::MaxGroupLevelExceeded);
+                }
+            }
+        }
+
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(min_row, first_col);
+        self.check_dimensions(min_row, last_col);
+
         // Write group outline for each column.
         for col in first_col..=last_col {
             self.set_grouped_column(col, collapsed)?;
-- 
2.43.0


From 58c2abddea15fea6c98ace13319797a4135233ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 28/71] fix: return an error for empty defined names

define_name() panicked for an empty name, such as in "Sheet1!".
---
 src/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 5ac4a72..e59e150 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1540,7 +1540,7 @@ impl Workbook {
 
         // Excel requires that the name starts with a letter or underscore.
         // Also, backspace is allowed but undocumented by Excel.
-        if !defined_name.name.chars().next().unwrap().is_alphabetic()
+        if !defined_name.name.starts_with(char::is_alphabetic)
             && !defined_name.name.starts_with('_')
             && !defined_name.name.starts_with('\\')
         {
-- 
2.43.0


From c138eca69bed44d6dd36d30f769a912e032357a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 29/71] fix: check for table overlaps before changing the
 autofilter

---
 src/worksheet.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 34dbd35..beaf662 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8483,23 +8483,11 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
-        // Store the defined name information.
-        self.autofilter_defined_name.in_use = true;
-        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
-        self.autofilter_defined_name.first_row = first_row;
-        self.autofilter_defined_name.first_col = first_col;
-        self.autofilter_defined_name.last_row = last_row;
-        self.autofilter_defined_name.last_col = last_col;
-
         let autofilter_area = CellRange::new(first_row, first_col, last_row, last_col);
 
-        // Clear any previous filters.
-        self.filter_conditions = BTreeMap::new();
-
-        // Store the cells with the autofilter dropdown for the autofit calc.
+        // Check that the worksheet autofilter doesn't overlap a table
+        // autofilter.
         for col in first_col..=last_col {
-            // Check that the worksheet autofilter doesn't overlap a table
-            // autofilter.
             let filter_data = self.cells_with_autofilter.get(&(first_row, col));
             if let Some((filter_type, filter_range)) = filter_data {
                 if *filter_type == FilterType::Table {
@@ -8509,7 +8497,21 @@ impl Worksheet {
                     ));
                 }
             }
+        }
 
+        // Store the defined name information.
+        self.autofilter_defined_name.in_use = true;
+        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
+        self.autofilter_defined_name.first_row = first_row;
+        self.autofilter_defined_name.first_col = first_col;
+        self.autofilter_defined_name.last_row = last_row;
+        self.autofilter_defined_name.last_col = last_col;
+
+        // Clear any previous filters.
+        self.filter_conditions = BTreeMap::new();
+
+        // Store the cells with the autofilter dropdown for the autofit calc.
+        for col in first_col..=last_col {
             self.cells_with_autofilter.insert(
                 (first_row, col),
                 (FilterType::Worksheet, autofilter_area.clone()),
-- 
2.43.0


From 1e4b13d45761b4e1176400740b96493d746df91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 30/71] fix: don't reject tables where a previous autofilter
 was

The cells of the first autofilter were kept after autofilter() was called again
for another range.
---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index beaf662..8cc369c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8509,6 +8509,8 @@ impl Worksheet {
 
         // Clear any previous filters.
         self.filter_conditions = BTreeMap::new();
+        self.cells_with_autofilter
+            .retain(|_, (filter_type, _)| *filter_type == FilterType::Table);
 
         // Store the cells with the autofilter dropdown for the autofit calc.
         for col in first_col..=last_col {
-- 
2.43.0


From 9abc5d5e5434a19e08b2375dbcee885c63426186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 31/71] fix: don't depend on the current row for the dimensions
 of column changes

In constant memory mode the last column of the dimensions wasn't updated by
column formats and groups after the first row was flushed, for example by a
save.
---
 src/worksheet.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8cc369c..164121b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8094,11 +8094,8 @@ impl Worksheet {
         col: ColNum,
         format: &Format,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Get a suitable minimum value for the dimension check/set.
-        let min_row = self.get_min_row();
-
         // Check column is in the allowed range.
-        if !self.check_dimensions(min_row, col) {
+        if !self.check_column_dimensions(col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -16078,6 +16075,24 @@ impl Worksheet {
         true
     }
 
+    // Check that col is within the allowed Excel range for changes that apply to
+    // a column and not to a row. In constant memory mode these don't depend on
+    // the current row.
+    fn check_column_dimensions(&mut self, col: ColNum) -> bool {
+        if col >= COL_MAX {
+            return false;
+        }
+
+        // Store any changes in worksheet dimensions.
+        let min_row = self.get_min_row();
+        self.dimensions.first_row = min_row;
+        self.dimensions.last_row = cmp::max(self.dimensions.last_row, min_row);
+        self.dimensions.first_col = cmp::min(self.dimensions.first_col, col);
+        self.dimensions.last_col = cmp::max(self.dimensions.last_col, col);
+
+        true
+    }
+
     // Check that row and col are within the allowed Excel range but don't
     // modify the worksheet cell range.
     #[allow(clippy::unused_self)]
@@ -17381,13 +17396,8 @@ impl Worksheet {
         last_col: ColNum,
         collapsed: bool,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Get a suitable minimum value for the dimension check/set.
-        let min_row = self.get_min_row();
-
         // Check columns are in the allowed range.
-        if !self.check_dimensions_only(min_row, first_col)
-            || !self.check_dimensions_only(min_row, last_col)
-        {
+        if !self.check_dimensions_only(0, first_col) || !self.check_dimensions_only(0, last_col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17406,8 +17416,8 @@ impl Worksheet {
         }
 
         // Store any changes in the worksheet dimensions.
-        self.check_dimensions(min_row, first_col);
-        self.check_dimensions(min_row, last_col);
+        self.check_column_dimensions(first_col);
+        self.check_column_dimensions(last_col);
 
         // Write group outline for each column.
         for col in first_col..=last_col {
@@ -17463,8 +17473,7 @@ impl Worksheet {
     // Set the collapsed property to the column after the collapse group.
     fn set_collapsed_column(&mut self, col: ColNum) -> Result<&mut Worksheet, XlsxError> {
         // Check columns are in the allowed range.
-        let min_row = self.get_min_row();
-        if !self.check_dimensions(min_row, col) {
+        if !self.check_column_dimensions(col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
-- 
2.43.0


From 206b67428e695ea1522c1bf5721c687f24496385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 32/71] fix: restore the rows hidden by an autofilter after a
 save

---
 src/workbook.rs  |  4 +++-
 src/worksheet.rs | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index e59e150..df881c9 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2033,8 +2033,10 @@ impl Workbook {
     fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
         let result = self.prepare_and_save(writer);
 
-        #[cfg(feature = "serde")]
         for worksheet in &mut self.worksheets {
+            worksheet.restore_autofilter_rows();
+
+            #[cfg(feature = "serde")]
             worksheet.remove_serialized_tables();
         }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 164121b..c0bb3f7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1609,6 +1609,8 @@ pub struct Worksheet {
     vertical_breaks: Vec<u32>,
     filter_conditions: BTreeMap<ColNum, FilterCondition>,
     filter_automatic_off: bool,
+    filter_hidden_rows: Vec<(RowNum, Option<RowOptions>)>,
+    filter_dimensions: Option<CellRange>,
     has_drawing_object_linkage: bool,
     cells_with_autofilter: HashMap<(RowNum, ColNum), (FilterType, CellRange)>,
     conditional_formats: BTreeMap<String, Vec<Box<dyn ConditionalFormat + Sync + Send>>>,
@@ -1839,6 +1841,8 @@ impl Worksheet {
             vertical_breaks: vec![],
             filter_conditions: BTreeMap::new(),
             filter_automatic_off: false,
+            filter_hidden_rows: vec![],
+            filter_dimensions: None,
             charts: BTreeMap::new(),
             buttons: BTreeMap::new(),
             notes: BTreeMap::new(),
@@ -14821,6 +14825,9 @@ impl Worksheet {
         let first_row = self.autofilter_defined_name.first_row + 1; // Skip header.
         let last_row = self.autofilter_defined_name.last_row;
 
+        // Store the dimensions so that they can be restored after the save.
+        self.filter_dimensions = Some(self.dimensions.clone());
+
         for col_num in self.filter_conditions.clone().keys() {
             // Iterate through each column filter conditions.
             let filter_condition = self.filter_conditions.get(col_num).unwrap().clone();
@@ -14828,18 +14835,45 @@ impl Worksheet {
                 if filter_condition.is_list_filter {
                     // Handle list filters.
                     if !self.row_matches_list_filter(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_autofilter_row(row_num);
                     }
                 } else {
                     // Handle custom filters.
                     if !self.row_matches_custom_filters(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_autofilter_row(row_num);
                     }
                 }
             }
         }
     }
 
+    // Hide a filtered row and store its previous options so that they can be
+    // restored after the save.
+    fn hide_autofilter_row(&mut self, row_num: RowNum) {
+        let previous = self.changed_rows.get(&row_num).cloned();
+        self.filter_hidden_rows.push((row_num, previous));
+
+        self.set_row_hidden(row_num).unwrap();
+    }
+
+    // Restore the rows that were hidden by the autofilter for a save. The rows
+    // are filtered again in the next save.
+    pub(crate) fn restore_autofilter_rows(&mut self) {
+        for (row_num, previous) in std::mem::take(&mut self.filter_hidden_rows)
+            .into_iter()
+            .rev()
+        {
+            match previous {
+                Some(row_options) => self.changed_rows.insert(row_num, row_options),
+                None => self.changed_rows.remove(&row_num),
+            };
+        }
+
+        if let Some(dimensions) = self.filter_dimensions.take() {
+            self.dimensions = dimensions;
+        }
+    }
+
     // Check if the data in a cell matches one of the values in the list of
     // filter conditions (which in the list filter case is a list of strings or
     // number values).
-- 
2.43.0


From 2993a4086ef0e5bfbe14f9c18b12adaf767d1610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 33/71] fix: don't keep the default VBA codenames of a save

---
 src/workbook.rs  | 3 ++-
 src/worksheet.rs | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index df881c9..3cd7f47 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2167,8 +2167,9 @@ impl Workbook {
             // SheetN and not on the actual sheet name.
             if self.is_xlsm_file {
                 let codename = format!("Sheet{}", i + 1);
-                if worksheet.vba_codename.is_none() {
+                if worksheet.vba_codename.is_none() || worksheet.has_default_vba_codename {
                     worksheet.vba_codename = Some(codename);
+                    worksheet.has_default_vba_codename = true;
                 }
             }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index c0bb3f7..730f695 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1523,6 +1523,7 @@ pub struct Worksheet {
     pub(crate) embedded_images: Vec<Image>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
     pub(crate) vba_codename: Option<String>,
+    pub(crate) has_default_vba_codename: bool,
     pub(crate) note_authors: BTreeMap<String, usize>,
     pub(crate) vml_data_id: String,
     pub(crate) vml_shape_id: u32,
@@ -1861,6 +1862,7 @@ impl Worksheet {
             has_sparklines: false,
             sparklines: vec![],
             vba_codename: None,
+            has_default_vba_codename: false,
             note_authors: BTreeMap::from([("Author".to_string(), 0)]),
             show_all_notes: false,
             vml_data_id: String::new(),
@@ -14465,6 +14467,7 @@ impl Worksheet {
         let name = name.into();
         utility::validate_vba_name(&name)?;
         self.vba_codename = Some(name);
+        self.has_default_vba_codename = false;
 
         Ok(self)
     }
-- 
2.43.0


From d9a7622c366a5e9d6447aaae49480f0a29c2e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 34/71] fix: don't keep the image types of previous saves

---
 src/worksheet.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 730f695..b84b837 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16996,6 +16996,12 @@ impl Worksheet {
         self.background_relationships.clear();
         self.buttons_vml_info.clear();
         self.comments_vml_info.clear();
+
+        // Only the embedded images are stored before the save.
+        self.image_types = [false; NUM_IMAGE_FORMATS];
+        for image in &self.embedded_images {
+            self.image_types[image.image_type.clone() as usize] = true;
+        }
     }
 
     // Check if any external relationships are required.
-- 
2.43.0


From b4e299f5b0f297f1b94ef709992564b8a03b0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 35/71] fix: don't change the dimensions in ignored constant
 memory writes

---
 src/worksheet.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b84b837..ed59265 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -5806,7 +5806,7 @@ impl Worksheet {
         }
 
         // Store any changes in the worksheet dimensions.
-        self.check_dimensions(row, col);
+        self.store_dimensions(row, col);
 
         // Set the cell that the Note refers to. This is different form the cell
         // where the note appears.
@@ -16094,24 +16094,22 @@ impl Worksheet {
             return false;
         }
 
-        // Store any changes in worksheet dimensions.
-        self.dimensions.first_row = cmp::min(self.dimensions.first_row, row);
-        self.dimensions.first_col = cmp::min(self.dimensions.first_col, col);
-
-        // In constant memory mode we also need to ensure the row is valid.
-        if self.use_constant_memory {
-            if row >= self.current_row {
-                self.dimensions.last_row = cmp::max(self.dimensions.last_row, row);
-                self.dimensions.last_col = cmp::max(self.dimensions.last_col, col);
-            }
-        } else {
-            self.dimensions.last_row = cmp::max(self.dimensions.last_row, row);
-            self.dimensions.last_col = cmp::max(self.dimensions.last_col, col);
+        // In constant memory mode changes to previous rows are ignored.
+        if !self.use_constant_memory || row >= self.current_row {
+            self.store_dimensions(row, col);
         }
 
         true
     }
 
+    // Store any changes in the worksheet dimensions.
+    fn store_dimensions(&mut self, row: RowNum, col: ColNum) {
+        self.dimensions.first_row = cmp::min(self.dimensions.first_row, row);
+        self.dimensions.first_col = cmp::min(self.dimensions.first_col, col);
+        self.dimensions.last_row = cmp::max(self.dimensions.last_row, row);
+        self.dimensions.last_col = cmp::max(self.dimensions.last_col, col);
+    }
+
     // Check that col is within the allowed Excel range for changes that apply to
     // a column and not to a row. In constant memory mode these don't depend on
     // the current row.
-- 
2.43.0


From 8667c9599961a0a9bb4ca4650d9c63e324efdfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 36/71] fix: write the outline level of rows in constant memory
 mode

---
 src/worksheet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index ed59265..9c457fb 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19243,6 +19243,14 @@ impl Worksheet {
             {
                 attributes.push(("customHeight", "1".to_string()));
             }
+
+            if row_options.level > 0 {
+                attributes.push(("outlineLevel", row_options.level.to_string()));
+            }
+
+            if row_options.collapsed {
+                attributes.push(("collapsed", "1".to_string()));
+            }
         } else if self.user_default_row_height != DEFAULT_ROW_HEIGHT {
             attributes.push(("ht", self.user_default_row_height.to_string()));
             attributes.push(("customHeight", "1".to_string()));
-- 
2.43.0


From 5446b24ae8a3e2bdaf086509fa2a04f3be6010e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:03 +0000
Subject: [PATCH 37/71] fix: add cell formats in the row order of constant
 memory mode

---
 src/worksheet.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9c457fb..900ce9c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10430,8 +10430,13 @@ impl Worksheet {
             for col in first_col..=last_col {
                 self.insert_cell_format(row, col, xf_index);
             }
+
+            // Write the rows after the first one ahead, in constant memory mode.
+            self.set_writing_ahead(true);
         }
 
+        self.set_writing_ahead(false);
+
         Ok(self)
     }
 
@@ -15707,7 +15712,37 @@ impl Worksheet {
     // Insert a cell format value into the worksheet data table structure. This
     // function creates a new blank cell if no other cell value exists.
     fn insert_cell_format(&mut self, row: RowNum, col: ColNum, format_id: u32) {
-        match self.data_table.entry(row) {
+        #[cfg(feature = "constant_memory")]
+        if self.use_constant_memory {
+            // Handle rows in the same way as insert_cell().
+            if row < self.current_row {
+                eprintln!(
+                    "Ignoring format for previously written row {row} in 'constant memory' mode."
+                );
+                return;
+            }
+
+            if row > self.current_row {
+                if self.is_writing_ahead {
+                    Self::insert_cell_format_to_table(row, col, format_id, &mut self.write_ahead);
+                    return;
+                }
+
+                self.flush_to_row(row);
+            }
+        }
+
+        Self::insert_cell_format_to_table(row, col, format_id, &mut self.data_table);
+    }
+
+    // Add a cell format to one of the data tables.
+    fn insert_cell_format_to_table(
+        row: RowNum,
+        col: ColNum,
+        format_id: u32,
+        data_table: &mut BTreeMap<RowNum, BTreeMap<ColNum, CellType>>,
+    ) {
+        match data_table.entry(row) {
             Entry::Occupied(mut entry) => {
                 // The row already exists.
                 let columns = entry.get_mut();
@@ -15867,8 +15902,13 @@ impl Worksheet {
             } else {
                 self.set_cell_format(row, col, &center_format)?;
             }
+
+            // Write the rows after the first one ahead, in constant memory mode.
+            self.set_writing_ahead(true);
         }
 
+        self.set_writing_ahead(false);
+
         Ok(self)
     }
 
@@ -15935,8 +15975,13 @@ impl Worksheet {
                     self.set_cell_format(row, col, &center_center)?;
                 }
             }
+
+            // Write the rows after the first one ahead, in constant memory mode.
+            self.set_writing_ahead(true);
         }
 
+        self.set_writing_ahead(false);
+
         Ok(self)
     }
 
-- 
2.43.0


From 6f1083fd2855af12903610c1963372047da74f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 38/71] fix: write the dimension of a first row that uses the
 last column

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 900ce9c..bef2d9a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17951,6 +17951,8 @@ impl Worksheet {
             && self.dimensions.first_col == 0
             && self.dimensions.last_row == 0
             && self.dimensions.last_col == COL_MAX - 1
+            && self.data_table.is_empty()
+            && self.current_row == 0
         {
             range = "A1".to_string();
         }
-- 
2.43.0


From 5d3b95a32c596fbabed441b98f6585aef8506242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 39/71] fix: escape control characters and whitespace in XML
 attributes

---
 src/xmlwriter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xmlwriter.rs b/src/xmlwriter.rs
index e660823..e32a39e 100644
--- a/src/xmlwriter.rs
+++ b/src/xmlwriter.rs
@@ -167,8 +167,12 @@ fn match_attribute_html_char(ch: char) -> Option<&'static str> {
         '"' => Some("&quot;"),
         '<' => Some("&lt;"),
         '>' => Some("&gt;"),
+        // Whitespace would be normalized to spaces when the attribute is read.
+        '\t' => Some("&#x9;"),
         '\n' => Some("&#xA;"),
-        _ => None,
+        '\r' => Some("&#xD;"),
+        // Escape control and non-printing characters in the same way as data.
+        _ => match_xml_char(ch),
     }
 }
 
-- 
2.43.0


From 854234b1ad0d405e2d9f3be722c6d236287e4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 40/71] fix: change cells that were written ahead in constant
 memory mode

---
 src/worksheet.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index bef2d9a..7297ede 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15723,7 +15723,8 @@ impl Worksheet {
             }
 
             if row > self.current_row {
-                if self.is_writing_ahead {
+                // Default formats don't create a cell, or move to a new row.
+                if self.is_writing_ahead || format_id == 0 {
                     Self::insert_cell_format_to_table(row, col, format_id, &mut self.write_ahead);
                     return;
                 }
@@ -15789,10 +15790,21 @@ impl Worksheet {
         }
     }
 
+    // Get the cells of a row, including any that were written ahead in constant
+    // memory mode.
+    fn cells_in_row(&mut self, row: RowNum) -> Option<&mut BTreeMap<ColNum, CellType>> {
+        #[cfg(feature = "constant_memory")]
+        if self.use_constant_memory && row > self.current_row {
+            return self.write_ahead.get_mut(&row);
+        }
+
+        self.data_table.get_mut(&row)
+    }
+
     // Update the format index in a worksheet cell. This function ignores
     // non-existing cells (unlike the previous function).
     fn update_cell_format(&mut self, row: RowNum, col: ColNum, format_id: u32) {
-        let Some(columns) = self.data_table.get_mut(&row) else {
+        let Some(columns) = self.cells_in_row(row) else {
             return;
         };
 
@@ -15819,7 +15831,7 @@ impl Worksheet {
     // Clear the data and formatting from a worksheet cell. Ignores non-existing
     // cells.
     fn clear_cell_internal(&mut self, row: RowNum, col: ColNum) {
-        let Some(columns) = self.data_table.get_mut(&row) else {
+        let Some(columns) = self.cells_in_row(row) else {
             return;
         };
 
-- 
2.43.0


From 61e537f05b9fcb2ef8f02fc4f53e634f59367708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 41/71] fix: keep the format of dynamic formulas

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7297ede..8a762e2 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15304,7 +15304,7 @@ impl Worksheet {
     ) -> Result<&mut Worksheet, XlsxError> {
         // Transfer to dynamic formula handling function.
         if formula.has_dynamic_function {
-            return self.store_array_formula(row, col, row, col, formula, None, true);
+            return self.store_array_formula(row, col, row, col, formula, format, true);
         }
 
         // Check row and col are in the allowed range.
-- 
2.43.0


From fa413467efc089f67b6644ab6b97568dc0eb58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 42/71] fix: don't write plain strings as rich strings

A plain string that starts with <r> and ends with </r> was stored as the
XML of a rich string, which lost the text or damaged the file. Keep the
rich strings apart from the plain strings in the shared string table.
---
 src/shared_strings.rs       | 14 ++++++++++----
 src/shared_strings_table.rs | 15 +++++++++++++++
 src/worksheet.rs            | 10 +++++++---
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/shared_strings.rs b/src/shared_strings.rs
index a05b29c..9a3744c 100644
--- a/src/shared_strings.rs
+++ b/src/shared_strings.rs
@@ -66,16 +66,22 @@ impl SharedStrings {
     fn write_sst_strings(&mut self, string_table: &Arc<Mutex<SharedStringsTable>>) {
         let string_table = string_table.lock().unwrap();
 
-        let mut insertion_order_strings = Vec::from_iter(string_table.strings.iter());
-        insertion_order_strings.sort_by_key(|x| x.1);
+        let strings = string_table.strings.iter().map(|(s, index)| (index, s, false));
+        let rich_strings = string_table
+            .rich_strings
+            .iter()
+            .map(|(s, index)| (index, s, true));
+
+        let mut insertion_order_strings = Vec::from_iter(strings.chain(rich_strings));
+        insertion_order_strings.sort_by_key(|x| x.0);
         let whitespace = ['\t', '\n', ' '];
 
-        for (string, _) in insertion_order_strings {
+        for (_, string, is_rich_string) in insertion_order_strings {
             let preserve_whitespace =
                 string.starts_with(whitespace) || string.ends_with(whitespace);
 
             // Check if the string is a rich text element.
-            if string.starts_with("<r>") && string.ends_with("</r>") {
+            if is_rich_string {
                 xml_rich_si_element(&mut self.writer, string);
             } else {
                 xml_si_element(&mut self.writer, string, preserve_whitespace);
diff --git a/src/shared_strings_table.rs b/src/shared_strings_table.rs
index 60f33ba..dc1e3fd 100644
--- a/src/shared_strings_table.rs
+++ b/src/shared_strings_table.rs
@@ -19,6 +19,7 @@ pub struct SharedStringsTable {
     pub count: u32,
     pub unique_count: u32,
     pub strings: HashMap<Arc<str>, u32>,
+    pub rich_strings: HashMap<Arc<str>, u32>,
 }
 
 impl SharedStringsTable {
@@ -32,6 +33,7 @@ impl SharedStringsTable {
             count: 0,
             unique_count: 0,
             strings: HashMap::new(),
+            rich_strings: HashMap::new(),
         }
     }
 
@@ -46,6 +48,18 @@ impl SharedStringsTable {
         index
     }
 
+    // Get the index of the XML for a rich string in the Shared String table.
+    // These are stored separately from plain strings with the same text.
+    pub(crate) fn shared_rich_string_index(&mut self, key: Arc<str>) -> u32 {
+        let index = *self.rich_strings.entry(key).or_insert_with(|| {
+            let index = self.unique_count;
+            self.unique_count += 1;
+            index
+        });
+        self.count += 1;
+        index
+    }
+
     // Add a string to the Shared String table to get a consistent ordering with
     // files generated by Excel, when testing. This doesn't increment the count.
     pub(crate) fn populate_string_index(&mut self, key: Arc<str>, index: u32) {
@@ -58,6 +72,7 @@ impl SharedStringsTable {
     pub(crate) fn truncate(&mut self, count: u32, unique_count: u32) {
         if self.unique_count > unique_count {
             self.strings.retain(|_, index| *index < unique_count);
+            self.rich_strings.retain(|_, index| *index < unique_count);
         }
 
         self.count = count;
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8a762e2..83c675c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15275,7 +15275,7 @@ impl Worksheet {
 
         if self.has_workbook_global_sst {
             let mut string_table = self.string_table.lock().unwrap();
-            string_id = Some(string_table.shared_string_index(Arc::clone(&string)));
+            string_id = Some(string_table.shared_rich_string_index(Arc::clone(&string)));
         }
 
         let cell = CellType::RichString {
@@ -18701,11 +18701,15 @@ impl Worksheet {
                 match cell {
                     CellType::String {
                         string, string_id, ..
+                    } => {
+                        let string_index = string_table.shared_string_index(Arc::clone(string));
+                        *string_id = Some(string_index);
                     }
-                    | CellType::RichString {
+                    CellType::RichString {
                         string, string_id, ..
                     } => {
-                        let string_index = string_table.shared_string_index(Arc::clone(string));
+                        let string_index =
+                            string_table.shared_rich_string_index(Arc::clone(string));
                         *string_id = Some(string_index);
                     }
                     _ => {}
-- 
2.43.0


From 8a85b1aa2c366b2e0a497bf5f9de305abf45b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 43/71] fix: number the formats of conditional formats in each
 save

The number format ids of differential formats were kept from the first
save, so that later saves could use the same id for different formats.
---
 src/workbook.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 3cd7f47..c3e5837 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2702,6 +2702,12 @@ impl Workbook {
         self.num_formats = vec![];
 
         for xf_format in xf_formats.into_iter().flatten() {
+            // Renumber user defined formats that were numbered by a previous
+            // save.
+            if xf_format.num_format_index >= 164 && !xf_format.num_format.is_empty() {
+                xf_format.set_num_format_index_u16(0);
+            }
+
             if xf_format.num_format_index > 0 {
                 continue;
             }
-- 
2.43.0


From 56a901648e378bd0d92d9f911473a7078d4ad3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 44/71] fix: merge the format of rows and columns with other
 options

The format of a row or column that already had a height, width or other
option wasn't used for the format of the cells where they intersect.
---
 src/worksheet.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 83c675c..3406257 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6640,7 +6640,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.xf_index = xf_index,
+            Some(row_options) => {
+                row_options.xf_index = xf_index;
+                row_options.format = Some(format.clone());
+            }
             None => {
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
@@ -8110,7 +8113,10 @@ impl Worksheet {
 
         // Update an existing col metadata object or create a new one.
         match self.changed_cols.get_mut(&col) {
-            Some(col_options) => col_options.xf_index = xf_index,
+            Some(col_options) => {
+                col_options.xf_index = xf_index;
+                col_options.format = Some(format.clone());
+            }
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
-- 
2.43.0


From 573b9594c3fd9ee69b23a272a46a31a03c790038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 45/71] fix: write the outline level of ungrouped rows and
 columns

The outline level of the worksheet wasn't set for the first group of a
row or column without other options.
---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 3406257..9fd2a4c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17450,6 +17450,8 @@ impl Worksheet {
                 }
             }
             None => {
+                self.max_outline_row_level = std::cmp::max(1, self.max_outline_row_level);
+
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
                     xf_index: 0,
@@ -17558,6 +17560,8 @@ impl Worksheet {
                 }
             }
             None => {
+                self.max_outline_col_level = std::cmp::max(1, self.max_outline_col_level);
+
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
                     xf_index: 0,
-- 
2.43.0


From e21eba45bf1ab56e70f28720e8f73ccdc77f5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 46/71] fix: keep the number format of the primary format in a
 merge

The number format string of a format was replaced by the number format
index of the format that it was merged with.
---
 src/format.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 599a63b..ef3b58e 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -2528,11 +2528,9 @@ impl Format {
         self.quote_prefix |= other.quote_prefix;
         self.locked &= other.locked;
 
-        if self.num_format.is_empty() {
+        // The number format and its index are a single property.
+        if self.num_format.is_empty() && self.num_format_index == 0 {
             self.num_format.clone_from(&other.num_format);
-        }
-
-        if self.num_format_index == 0 {
             self.num_format_index = other.num_format_index;
         }
 
-- 
2.43.0


From 9c015865be36ea38f6814f338023bc0dbb25a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 47/71] fix: unset the hyperlink style in
 unset_hyperlink_style()

---
 src/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format.rs b/src/format.rs
index ef3b58e..79c4fbe 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -2415,7 +2415,7 @@ impl Format {
 
     /// Unset the hyperlink style. Doesn't reset the other properties.
     pub fn unset_hyperlink_style(mut self) -> Format {
-        self.font.is_hyperlink = true;
+        self.font.is_hyperlink = false;
 
         self
     }
-- 
2.43.0


From 2d16ba549cd79e5572deea398c3417ce810a7ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 48/71] fix: keep the closing brace of an array constant in a
 formula

A formula that ended with an array constant, such as "={1,2}", was written
without its closing brace.
---
 src/formula.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index e396e73..3e05f98 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -753,14 +753,11 @@ impl Formula {
         // Remove array formula braces and the leading = if they exist.
         let mut formula = formula.as_ref();
         if let Some(stripped) = formula.strip_prefix('{') {
-            formula = stripped;
+            formula = stripped.strip_suffix('}').unwrap_or(stripped);
         }
         if let Some(stripped) = formula.strip_prefix('=') {
             formula = stripped;
         }
-        if let Some(stripped) = formula.strip_suffix('}') {
-            formula = stripped;
-        }
 
         // We need to escape future functions in a formula string. If the user
         // has already done this we simply copy the string. In both cases we
-- 
2.43.0


From 4d039e90ad70a6a7223d9380f28050f8522006bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 49/71] fix: don't prefix names that only end like a future
 function

The "_xlfn." prefix was inserted in user defined names such as My_IFS(),
in quoted sheet names and in table references, and a double quote in a
sheet name stopped the functions after it from being prefixed.
---
 src/formula.rs | 97 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 22 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index 3e05f98..158c9e7 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -742,6 +742,51 @@ pub struct Formula {
     expand_table_functions: bool,
 }
 
+// The position in a formula relative to string literals, quoted sheet names and
+// table references.
+#[derive(Default)]
+struct FormulaLiteral {
+    quote: Option<char>,
+    bracket_depth: u32,
+    is_escaped: bool,
+}
+
+impl FormulaLiteral {
+    // Check if the next character in a formula is part of a literal. A quote in
+    // a string literal or sheet name is doubled, so it starts a new literal.
+    // The special characters of a table reference are escaped with a quote.
+    fn contains(&mut self, char: char) -> bool {
+        if self.quote.is_some() {
+            if self.quote == Some(char) {
+                self.quote = None;
+            }
+            return true;
+        }
+
+        if self.bracket_depth > 0 {
+            if self.is_escaped {
+                self.is_escaped = false;
+            } else {
+                match char {
+                    '\'' => self.is_escaped = true,
+                    '[' => self.bracket_depth += 1,
+                    ']' => self.bracket_depth -= 1,
+                    _ => {}
+                }
+            }
+            return true;
+        }
+
+        match char {
+            '"' | '\'' => self.quote = Some(char),
+            '[' => self.bracket_depth = 1,
+            _ => return false,
+        }
+
+        true
+    }
+}
+
 impl Formula {
     /// Create a new `Formula` struct instance.
     ///
@@ -836,20 +881,20 @@ impl Formula {
     fn escape_formula(formula: &str) -> (String, bool) {
         let mut start_position = 0;
         let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut in_name = false;
+        let mut literal = FormulaLiteral::default();
         let mut has_dynamic_function = false;
         let mut escaped_formula = String::with_capacity(formula.len());
 
         for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // escaping function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Copy the string literal.
-            if in_string_literal {
+            // Copy string literals, quoted sheet names and table references. We
+            // track these to avoid escaping function names in them.
+            if literal.contains(char) {
+                if in_function {
+                    escaped_formula.push_str(&formula[start_position..current_position]);
+                    in_function = false;
+                }
+                in_name = false;
                 escaped_formula.push(char);
                 continue;
             }
@@ -888,13 +933,16 @@ impl Formula {
                     escaped_formula.push(char);
                     in_function = false;
                 }
-            } else if is_function_char {
+            } else if is_function_char && !in_name {
                 // Match the start of a possible function name.
                 start_position = current_position;
                 in_function = true;
             } else {
                 escaped_formula.push(char);
             }
+
+            // The rest of other names, such as "My_IFS", isn't a function.
+            in_name = Self::is_name_char(char) || (in_name && char == '.');
         }
 
         // Clean up any trailing buffer that wasn't a function.
@@ -905,25 +953,27 @@ impl Formula {
         (escaped_formula, has_dynamic_function)
     }
 
+    // Check for a character that can be in a user defined name.
+    fn is_name_char(char: char) -> bool {
+        char.is_alphanumeric() || char == '_' || char == '\\'
+    }
+
     // This is a version of the previous escape_formula() function that only
     // checks to see if a user escaped string contains a dynamic function and
     // returns a clone of the string.
     fn copy_escaped_formula(formula: &str) -> (String, bool) {
         let mut start_position = 0;
         let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut in_name = false;
+        let mut literal = FormulaLiteral::default();
         let mut has_dynamic_function = false;
 
         for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // matching function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Ignore the string literal.
-            if in_string_literal {
+            // Ignore string literals, quoted sheet names and table references.
+            // We track these to avoid matching function names in them.
+            if literal.contains(char) {
+                in_function = false;
+                in_name = false;
                 continue;
             }
 
@@ -949,11 +999,14 @@ impl Formula {
 
                     in_function = false;
                 }
-            } else if is_function_start_char {
+            } else if is_function_start_char && !in_name {
                 // Match the start of a possible function name.
                 start_position = current_position;
                 in_function = true;
             }
+
+            // The rest of other names, such as "My_IFS", isn't a function.
+            in_name = Self::is_name_char(char);
         }
 
         (formula.to_string(), has_dynamic_function)
-- 
2.43.0


From 259a99a77f96bf0f3665e4236d5243f27e66c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:14 +0000
Subject: [PATCH 50/71] fix: use a solid fill for both colors without a pattern

A format with a background and a foreground color but without a pattern
was written with the pattern "none" so neither color was shown.
---
 src/workbook.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index c3e5837..fe4fb0c 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2653,6 +2653,13 @@ impl Workbook {
                 fill.pattern = FormatPattern::Solid;
             }
 
+            if fill.pattern == FormatPattern::None
+                && fill.background_color != Color::Default
+                && fill.foreground_color != Color::Default
+            {
+                fill.pattern = FormatPattern::Solid;
+            }
+
             // Find unique or repeated fill ids.
             match fill_indices.get(fill) {
                 Some(fill_index) => {
-- 
2.43.0


From b140b4541aeeee84bb2ca631405070f734bd942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 51/71] fix: keep literal _xHHHH_ text in rich strings

A rich string such as "_x0041_" was read back as "A": plain strings escape
it as "_x005F_x0041_" but rich strings didn't.
---
 src/worksheet.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9fd2a4c..0983593 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15633,6 +15633,9 @@ impl Worksheet {
             // Accumulate the string segments into a unformatted string.
             raw_string.push_str(string);
 
+            // Escape literal "_xHHHH_" strings in the same way as plain strings.
+            let text = xmlwriter::escape_xml_escapes(string);
+
             let whitespace = ['\t', '\n', ' '];
             let attributes = if string.starts_with(whitespace) || string.ends_with(whitespace) {
                 vec![("xml:space", "preserve")]
@@ -15643,12 +15646,12 @@ impl Worksheet {
             // First segment doesn't require a font run for the default format.
             if format.is_default() && first_segment {
                 xml_start_tag_only(&mut styler.writer, "r");
-                xml_data_element(&mut styler.writer, "t", string, &attributes);
+                xml_data_element(&mut styler.writer, "t", &text, &attributes);
                 xml_end_tag(&mut styler.writer, "r");
             } else {
                 xml_start_tag_only(&mut styler.writer, "r");
                 styler.write_font(&format.font, false);
-                xml_data_element(&mut styler.writer, "t", string, &attributes);
+                xml_data_element(&mut styler.writer, "t", &text, &attributes);
                 xml_end_tag(&mut styler.writer, "r");
             }
             first_segment = false;
-- 
2.43.0


From 1640e7e83aea8a215a293bdf9845008f9086fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 52/71] fix: name the attribute for ignored two digit text
 years correctly

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 0983593..696da12 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -21134,7 +21134,7 @@ impl fmt::Display for IgnoreError {
         match self {
             Self::FormulaError => write!(f, "evalError"),
             Self::FormulaDiffers => write!(f, "formula"),
-            Self::TwoDigitTextYear => write!(f, "TwoDigitTextYear"),
+            Self::TwoDigitTextYear => write!(f, "twoDigitTextYear"),
             Self::FormulaOmitsCells => write!(f, "formulaRange"),
             Self::DataValidationError => write!(f, "listDataValidation"),
             Self::NumberStoredAsText => write!(f, "numberStoredAsText"),
-- 
2.43.0


From 1f362eba68cdc0a7259d95202cc3088eef932056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 53/71] fix: write the first page number

---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 696da12..947cfef 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18586,7 +18586,11 @@ impl Worksheet {
         }
 
         if self.first_page_number > 0 {
-            attributes.push(("useFirstPageNumber", self.first_page_number.to_string()));
+            if self.first_page_number > 1 {
+                attributes.push(("firstPageNumber", self.first_page_number.to_string()));
+            }
+
+            attributes.push(("useFirstPageNumber", "1".to_string()));
         }
 
         if self.print_black_and_white {
-- 
2.43.0


From aeed6a4d98ba20a304694ef6836a9611adcc4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 54/71] fix: don't escape urls that are already escaped

---
 src/url.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index 8d24eec..7ace07a 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -532,22 +532,9 @@ impl Url {
             return false;
         }
 
-        url.as_bytes().windows(3).any(|w| {
-            matches!(
-                w,
-                b"%25"
-                    | b"%22"
-                    | b"%20"
-                    | b"%3c"
-                    | b"%3e"
-                    | b"%5b"
-                    | b"%5d"
-                    | b"%5e"
-                    | b"%60"
-                    | b"%7b"
-                    | b"%7d"
-            )
-        })
+        url.as_bytes()
+            .windows(3)
+            .any(|w| w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit())
     }
 }
 
-- 
2.43.0


From 0d3c16c5638706400e1abaf0f9cf8e78bb87acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 55/71] fix: quotes and text length in conditional format text
 rules

---
 src/conditional_format.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 3fa5a8a..d90e9ef 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3002,23 +3002,30 @@ impl ConditionalFormatText {
         let mut attributes = vec![];
         let anchor = &range_to_anchor(range);
 
+        // Quotes in the text must be doubled in the formula.
+        let escape = |text: &str| text.replace('"', "\"\"");
+
         // Set the rule attributes based on the criteria.
         let formula = match rule {
             ConditionalFormatTextRule::Contains(text) => {
+                let text = escape(text);
                 attributes.push(("type", "containsText".to_string()));
                 format!(r#"NOT(ISERROR(SEARCH("{text}",{anchor})))"#)
             }
             ConditionalFormatTextRule::DoesNotContain(text) => {
+                let text = escape(text);
                 attributes.push(("type", "notContainsText".to_string()));
                 format!(r#"ISERROR(SEARCH("{text}",{anchor}))"#)
             }
             ConditionalFormatTextRule::BeginsWith(text) => {
-                let length = text.len();
+                let length = text.chars().count();
+                let text = escape(text);
                 attributes.push(("type", "beginsWith".to_string()));
                 format!(r#"LEFT({anchor},{length})="{text}""#)
             }
             ConditionalFormatTextRule::EndsWith(text) => {
-                let length = text.len();
+                let length = text.chars().count();
+                let text = escape(text);
                 attributes.push(("type", "endsWith".to_string()));
                 format!(r#"RIGHT({anchor},{length})="{text}""#)
             }
-- 
2.43.0


From 5b2fa8c118fcc15444f69385d7b65eaa7c1a6821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 56/71] fix: write all properties of extended icon sets

---
 src/conditional_format.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index d90e9ef..dd6c10e 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6156,12 +6156,18 @@ impl ConditionalFormatIconSet {
     // Return an extended x14 rule for conditional formats that support it.
     pub(crate) fn x14_rule(&self, priority: u32, guid: &str) -> String {
         let mut writer = Cursor::new(Vec::with_capacity(2048));
-        let attributes = [
+        let mut attributes = vec![
             ("type", "iconSet".to_string()),
             ("priority", priority.to_string()),
-            ("id", guid.to_string()),
         ];
 
+        // Set the "Stop if True" property.
+        if self.stop_if_true {
+            attributes.push(("stopIfTrue", "1".to_string()));
+        }
+
+        attributes.push(("id", guid.to_string()));
+
         // Write the rule.
         xml_start_tag(&mut writer, "x14:cfRule", &attributes);
 
@@ -6171,6 +6177,14 @@ impl ConditionalFormatIconSet {
             attributes.push(("iconSet", self.icon_type.to_string()));
         }
 
+        if self.icon_only {
+            attributes.push(("showValue", "0".to_string()));
+        }
+
+        if self.is_reversed {
+            attributes.push(("reverse", "1".to_string()));
+        }
+
         if self.has_custom_icons {
             attributes.push(("custom", "1".to_string()));
         }
@@ -6242,30 +6256,34 @@ impl ConditionalFormatIconSet {
         let mut attributes = vec![];
         let value = icon.value.value.as_ref();
 
+        if icon.greater_than {
+            attributes.push(("gte", "0".to_string()));
+        }
+
         match icon.rule_type {
             ConditionalFormatType::Automatic
             | ConditionalFormatType::Lowest
             | ConditionalFormatType::Highest => {}
             ConditionalFormatType::Number => {
-                attributes.push(("type", "num".to_string()));
+                attributes.insert(0, ("type", "num".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percent => {
-                attributes.push(("type", "percent".to_string()));
+                attributes.insert(0, ("type", "percent".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Formula => {
-                attributes.push(("type", "formula".to_string()));
+                attributes.insert(0, ("type", "formula".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percentile => {
-                attributes.push(("type", "percentile".to_string()));
+                attributes.insert(0, ("type", "percentile".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
-- 
2.43.0


From 7564e7fea4181a732f842deff585f80c0192a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 57/71] fix: use the documented codes for number formats 41 to
 44

---
 src/format.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 79c4fbe..645cd92 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -959,10 +959,10 @@ impl Format {
             (38, "(#,##0_);[Red](#,##0)"),
             (39, "(#,##0.00_);(#,##0.00)"),
             (40, "(#,##0.00_);[Red](#,##0.00)"),
-            (41, "_(* #,##0_);_(* (#,##0);_(* \"-\"_);_(_)"),
-            (42, "_($* #,##0_);_($* (#,##0);_($* \"-\"_);_(_)"),
-            (43, "_(* #,##0.00_);_(* (#,##0.00);_(* \"-\"??_);_(_)"),
-            (44, "_($* #,##0.00_);_($* (#,##0.00);_($* \"-\"??_);_(_)"),
+            (41, "_(* #,##0_);_(* (#,##0);_(* \"-\"_);_(@_)"),
+            (42, "_($* #,##0_);_($* (#,##0);_($* \"-\"_);_(@_)"),
+            (43, "_(* #,##0.00_);_(* (#,##0.00);_(* \"-\"??_);_(@_)"),
+            (44, "_($* #,##0.00_);_($* (#,##0.00);_($* \"-\"??_);_(@_)"),
             (45, "mm:ss"),
             (46, "[h]:mm:ss"),
             (47, "mm:ss.0"),
-- 
2.43.0


From f0cc7d546aa20061786dd76284bb63b3dc2aa593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 58/71] fix: write the sheet property elements in the order of
 the schema

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 947cfef..362e92a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17910,15 +17910,15 @@ impl Worksheet {
         {
             xml_start_tag(&mut self.writer, "sheetPr", &attributes);
 
-            // Write the pageSetUpPr element.
-            self.write_page_set_up_pr();
-
             // Write the tabColor element.
             self.write_tab_color();
 
             // Write the outlinePr element.
             self.write_outline_pr();
 
+            // Write the pageSetUpPr element.
+            self.write_page_set_up_pr();
+
             xml_end_tag(&mut self.writer, "sheetPr");
         } else {
             xml_empty_tag(&mut self.writer, "sheetPr", &attributes);
-- 
2.43.0


From 83db3c6fca5a5743a4186cc8971b4e93fb3a3299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 59/71] fix: don't leave the first visible worksheet hidden

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 362e92a..471f933 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12585,7 +12585,7 @@ impl Worksheet {
         self.first_sheet = enable;
 
         // First visible worksheet cannot be hidden.
-        if self.selected {
+        if self.first_sheet {
             self.visible = Visible::Default;
         }
         self
-- 
2.43.0


From d71db7400230fcbd77a146f77508e71fe74fb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 60/71] fix: don't panic on page breaks that are all 0

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 471f933..f3e667d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12933,7 +12933,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel column limit.
-        if *breaks.last().unwrap() >= ROW_MAX {
+        if breaks.last().is_some_and(|last| *last >= ROW_MAX) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -12973,7 +12973,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel col limit.
-        if *breaks.last().unwrap() >= u32::from(COL_MAX) {
+        if breaks.last().is_some_and(|last| *last >= u32::from(COL_MAX)) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15086,7 +15086,7 @@ impl Worksheet {
         breaks.sort_unstable();
 
         // Remove invalid 0 row/col.
-        if breaks[0] == 0 {
+        if breaks.first() == Some(&0) {
             breaks.remove(0);
         }
 
-- 
2.43.0


From 7a9a8c91d39d732d2cd2f119fb90b7b70d28431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 61/71] fix: reset the top left cell

---
 src/worksheet.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f3e667d..058c204 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10073,6 +10073,7 @@ impl Worksheet {
 
         // Ignore cell (0, 0) since that is the default top-left cell.
         if row == 0 && col == 0 {
+            self.top_left_cell.clear();
             return Ok(self);
         }
 
-- 
2.43.0


From e251083d754235c7a3e42944a07edfa2fca7005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 62/71] fix: reset the print area to the whole worksheet

---
 src/worksheet.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 058c204..97ff661 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -14166,6 +14166,7 @@ impl Worksheet {
         // The print range is the entire worksheet, therefore it is the same
         // as the default, so we can ignore it.
         if first_row == 0 && first_col == 0 && last_row == ROW_MAX - 1 && last_col == COL_MAX - 1 {
+            self.print_area_defined_name.in_use = false;
             return Ok(self);
         }
 
-- 
2.43.0


From 3b74a93a194863b638a9598df7e5236441c700e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 63/71] fix: local defined names of worksheets with '!' in
 their name

---
 src/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index fe4fb0c..757154a 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1526,7 +1526,7 @@ impl Workbook {
         let name = name.into();
 
         // Match Global/Workbook or Local/Worksheet defined names.
-        match name.find('!') {
+        match name.rfind('!') {
             Some(position) => {
                 defined_name.quoted_sheet_name = name[0..position].to_string();
                 defined_name.name = name[position + 1..].to_string();
-- 
2.43.0


From b8eb32e77bd97f282be3d270905c6155b8b3f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 64/71] fix: don't share the links of objects that only differ
 in the anchor

---
 src/worksheet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 97ff661..20b026a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16419,11 +16419,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_relationships.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
@@ -16510,11 +16510,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_relationships.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
-- 
2.43.0


From c6b9c4bf46f4c6e528aca5f1ed21f9adb3087e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 65/71] fix: keep the anchor of textbox links

---
 src/shape.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shape.rs b/src/shape.rs
index 87282ac..37d44c9 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -560,6 +560,7 @@ impl Shape {
     ///
     pub fn set_url(mut self, link: impl Into<Url>) -> Result<Shape, XlsxError> {
         let mut url = link.into();
+        url.is_object_link = true;
         url.initialize()?;
 
         self.url = Some(url);
-- 
2.43.0


From cfac521541bbf02f1ae244dfd336b6fb47ae9f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 66/71] fix: reset the shapes of a drawing between saves

---
 src/drawing.rs   | 2 +-
 src/worksheet.rs | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 90cdda7..5f07727 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -22,7 +22,7 @@ pub struct Drawing {
     pub(crate) writer: Cursor<Vec<u8>>,
     pub(crate) drawings: Vec<DrawingInfo>,
     pub(crate) shapes: Vec<Shape>,
-    shape_id: usize,
+    pub(crate) shape_id: usize,
 }
 
 impl Drawing {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 20b026a..101d5e3 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17055,6 +17055,8 @@ impl Worksheet {
         self.drawing_rel_ids.clear();
         self.drawing_relationships.clear();
         self.drawing.drawings.clear();
+        self.drawing.shapes.clear();
+        self.drawing.shape_id = 0;
         self.header_footer_vml_info.clear();
         self.hyperlink_relationships.clear();
         self.table_relationships.clear();
-- 
2.43.0


From 02989b2899dce130f88bb63a08667f42d9e2fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 67/71] fix: cache the titles of secondary chart axes

---
 src/workbook.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 757154a..ca6c2f2 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2459,6 +2459,8 @@ impl Workbook {
         Self::insert_to_chart_cache(&chart.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.x_axis.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.y_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.x2_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.y2_axis.title.range, chart_caches);
 
         for series in &chart.series {
             Self::insert_to_chart_cache(&series.title.range, chart_caches);
@@ -2489,6 +2491,8 @@ impl Workbook {
         Self::update_range_cache(&mut chart.title.range, chart_caches);
         Self::update_range_cache(&mut chart.x_axis.title.range, chart_caches);
         Self::update_range_cache(&mut chart.y_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.x2_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.y2_axis.title.range, chart_caches);
 
         for series in &mut chart.series {
             Self::update_range_cache(&mut series.title.range, chart_caches);
-- 
2.43.0


From 93ce44c71fc93917e46eccfaee896079e8db7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 68/71] fix: don't write nan and inf strings as numbers in
 chart caches

---
 src/chart.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 73b8b82..e992c3e 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4123,10 +4123,9 @@ impl Chart {
             if !value.is_empty() {
                 // Non numeric values in value/number caches are treated as zero
                 // by Excel.
-                if value.parse::<f64>().is_err() {
-                    self.write_pt(index, "0");
-                } else {
-                    self.write_pt(index, value);
+                match value.parse::<f64>() {
+                    Ok(number) if number.is_finite() => self.write_pt(index, value),
+                    _ => self.write_pt(index, "0"),
                 }
             }
         }
-- 
2.43.0


From 1ee92b966e6e9600524805a8e36abbf226cf7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 69/71] fix: keep literal _xHHHH_ text in chart caches

---
 src/chart.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index e992c3e..cf12334 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -746,8 +746,8 @@ use std::{fmt, mem, sync::OnceLock};
 use crate::drawing::{DrawingObject, DrawingType};
 use crate::utility::{self, ToXmlBoolean};
 use crate::xmlwriter::{
-    xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only, xml_end_tag,
-    xml_start_tag, xml_start_tag_only,
+    escape_xml_escapes, xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only,
+    xml_end_tag, xml_start_tag, xml_start_tag_only,
 };
 
 use crate::{
@@ -4170,7 +4170,8 @@ impl Chart {
         let attributes = [("idx", index.to_string())];
 
         xml_start_tag(&mut self.writer, "c:pt", &attributes);
-        xml_data_element_only(&mut self.writer, "c:v", value);
+        let value = escape_xml_escapes(value);
+        xml_data_element_only(&mut self.writer, "c:v", &value);
         xml_end_tag(&mut self.writer, "c:pt");
     }
 
-- 
2.43.0


From a403b37ef5f003c3fcf1fb18d1412f338823beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 70/71] fix: chart ranges of worksheets with quotes or '!' in
 their name

---
 src/chart.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index cf12334..5a3cb88 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8373,7 +8373,7 @@ impl ChartRange {
         let mut last_col = 0;
 
         // Parse the chart range string into the worksheet name and range parts.
-        if let Some(position) = range_string.find('!') {
+        if let Some(position) = range_string.rfind('!') {
             let range = &range_string[position + 1..].replace('$', "");
 
             if utility::is_valid_range(range) {
@@ -8420,12 +8420,10 @@ impl ChartRange {
         }
 
         // Strip the quotes from quoted sheet names.
-        if sheet_name.starts_with('\'') && sheet_name.ends_with('\'') {
-            sheet_name = &sheet_name[1..sheet_name.len() - 1];
-        }
+        let sheet_name = utility::unquote_sheetname(sheet_name);
 
         ChartRange {
-            sheet_name: sheet_name.to_string(),
+            sheet_name,
             first_row,
             first_col,
             last_row,
-- 
2.43.0


From ee0aec82cff4754a13ebd3d2f609666198e56b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 71/71] fix: keep the anchor of relative file links of objects

---
 src/url.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index 7ace07a..3bd0b56 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -440,7 +440,8 @@ impl Url {
             }
 
             // Split the URL into URL + #anchor if that exists.
-            let parts: Vec<&str> = self.link.splitn(2, '#').collect();
+            let full_link = self.link.clone();
+            let parts: Vec<&str> = full_link.splitn(2, '#').collect();
             if parts.len() == 2 {
                 self.anchor = parts[1].to_string();
                 self.link = parts[0].to_string();
@@ -450,7 +451,7 @@ impl Url {
             // anchor unless it is a link from an object like an image.
             if self.is_object_link {
                 if is_relative_path {
-                    self.relationship_link = self.link.replace('\\', "/");
+                    self.relationship_link = full_link.replace('\\', "/");
                 } else {
                     self.relationship_link.clone_from(&self.original_url);
                 }
-- 
2.43.0

