From 2206f5221ef57e6f09bd16e1a572af55ea72b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 01/36] fix: detect order loss against the last element flushed
 by the ParallelWriter

---
 src/osm/pbf/parallel_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index a53e951..5bc693b 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -39,7 +39,7 @@ fn flush_sorted_top() {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         let elements = split_file_block(element_ordering_buffer);
-        set_current_min_element(elements.first());
+        set_current_min_element(elements.last());
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -54,7 +54,7 @@ fn flush_all_sorted() {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         while !element_ordering_buffer.borrow().is_empty() {
             let elements = split_file_block(element_ordering_buffer);
-            set_current_min_element(elements.first());
+            set_current_min_element(elements.last());
             NEXT_THREAD_POOL.with(|thread_pool| {
                 let thread_pool = thread_pool.borrow();
                 let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
-- 
2.43.0


From f75e4e83743a87401588af7d9cc735b27fcd030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 02/36] fix: order Element::Sentinel consistently after all
 other elements

---
 src/osm/model/element.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm/model/element.rs b/src/osm/model/element.rs
index 2d227a9..80a6ca0 100644
--- a/src/osm/model/element.rs
+++ b/src/osm/model/element.rs
@@ -300,13 +300,13 @@ impl Ord for Element {
             Element::Sentinel => {
                 match other {
                     Element::Node { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Way { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Relation { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Sentinel => {
                         Ordering::Equal
-- 
2.43.0


From 40aca61a40400d2b00e8feba5e84b532258b94ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 03/36] fix: ignore Element::Sentinel in the ParallelWriter

---
 src/osm/pbf/parallel_writer.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 5bc693b..5b4c898 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -107,16 +107,14 @@ fn compression_type() -> CompressionType {
 }
 
 fn assert_order(element: &Element) {
-    if !element.is_sentinel() {
-        assert!(
-            compare_to_current_min_element(element).is_ge(),
-            "Element order, required by OSM PBF definition is lost. \
-                    Possible cause is that the length of the ordering buffer ({}) is too short \
-                    to for compensate for the loss of order caused by concurrent processing. \
-                    Recommended: reader_tasks * 8000 * n",
-            element_ordering_buffer_size()
-        );
-    }
+    assert!(
+        compare_to_current_min_element(element).is_ge(),
+        "Element order, required by OSM PBF definition is lost. \
+                Possible cause is that the length of the ordering buffer ({}) is too short \
+                to for compensate for the loss of order caused by concurrent processing. \
+                Recommended: reader_tasks * 8000 * n",
+        element_ordering_buffer_size()
+    );
 }
 
 fn compare_to_current_min_element(element: &Element) -> Ordering {
@@ -159,8 +157,12 @@ impl Command for AddElementCommand {
     fn execute(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
-            assert_order(element_guard.as_ref().unwrap());
-            element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
+            let element = element_guard.take().unwrap();
+            if element.is_sentinel() {
+                return;
+            }
+            assert_order(&element);
+            element_ordering_buffer.borrow_mut().push_back(element);
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top()
             }
@@ -186,6 +188,9 @@ impl Command for AddElementsCommand {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut elements_guard = self.elements.lock().unwrap();
             for element in elements_guard.take().unwrap() {
+                if element.is_sentinel() {
+                    continue;
+                }
                 assert_order(&element);
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
-- 
2.43.0


From 86e4fab23108e06276c2ffd79038e898a42a6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 04/36] fix: report loss of order as an error when the
 ParallelWriter is closed

---
 src/osm/pbf/parallel_writer.rs | 46 +++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 5b4c898..8485ceb 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -106,15 +106,20 @@ fn compression_type() -> CompressionType {
     COMPRESSION_TYPE.with(|compression_type| compression_type.borrow().as_ref().unwrap().clone())
 }
 
-fn assert_order(element: &Element) {
-    assert!(
-        compare_to_current_min_element(element).is_ge(),
-        "Element order, required by OSM PBF definition is lost. \
-                Possible cause is that the length of the ordering buffer ({}) is too short \
-                to for compensate for the loss of order caused by concurrent processing. \
-                Recommended: reader_tasks * 8000 * n",
-        element_ordering_buffer_size()
-    );
+fn verify_order(element: &Element) -> Result<(), Error> {
+    if compare_to_current_min_element(element).is_ge() {
+        Ok(())
+    } else {
+        Err(
+            anyhow!(
+                "Element order, required by OSM PBF definition is lost. \
+                    Possible cause is that the length of the ordering buffer ({}) is too short \
+                    to for compensate for the loss of order caused by concurrent processing. \
+                    Recommended: reader_tasks * 8000 * n",
+                element_ordering_buffer_size()
+            )
+        )
+    }
 }
 
 fn compare_to_current_min_element(element: &Element) -> Ordering {
@@ -159,15 +164,15 @@ impl Command for AddElementCommand {
             let mut element_guard = self.element.lock().unwrap();
             let element = element_guard.take().unwrap();
             if element.is_sentinel() {
-                return;
+                return Ok(());
             }
-            assert_order(&element);
+            verify_order(&element)?;
             element_ordering_buffer.borrow_mut().push_back(element);
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top()
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -191,14 +196,14 @@ impl Command for AddElementsCommand {
                 if element.is_sentinel() {
                     continue;
                 }
-                assert_order(&element);
+                verify_order(&element)?;
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top();
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -393,11 +398,11 @@ impl ParallelWriter {
     /// Flush internal buffers.
     pub fn close(&mut self) -> Result<(), Error> {
         self.flush_element_ordering();
-        Self::shutdown(self.element_ordering_pool.clone())?;
-        Self::shutdown(self.encoding_pool.clone())?;
+        let ordering_result = Self::shutdown(self.element_ordering_pool.clone());
+        let encoding_result = Self::shutdown(self.encoding_pool.clone());
         self.flush_writing();
-        Self::shutdown(self.writing_pool.clone())?;
-        Ok(())
+        let writing_result = Self::shutdown(self.writing_pool.clone());
+        ordering_result.and(encoding_result).and(writing_result)
     }
 
     fn flush_element_ordering(&self) {
@@ -416,6 +421,7 @@ impl ParallelWriter {
                         .with_tasks(tasks)
                         .with_queue_size(queue_size)
                         .with_shutdown_mode(ShutdownMode::CompletePending)
+                        .with_join_error_handler(|_name, _message| {})
                         .build()?
                 )
             )
-- 
2.43.0


From 34f2abcf7fc4cc826c0e53d98aa0aaa5bac87646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 05/36] fix: report file errors in the ParallelWriter instead
 of killing the writing thread

---
 src/osm/pbf/parallel_writer.rs | 42 ++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 8485ceb..3be2ffb 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -7,7 +7,7 @@ use std::path::PathBuf;
 use std::sync::{Arc, Mutex, RwLock};
 use std::thread::LocalKey;
 
-use anyhow::{anyhow, Error};
+use anyhow::{anyhow, Context, Error};
 use command_executor::command::Command;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool::ThreadPool;
@@ -284,17 +284,19 @@ impl Command for WriteBlobCommand {
                             Some((header, body)) => {
                                 PBF_WRITER.with(
                                     |writer| {
-                                        writer.borrow_mut().as_mut().unwrap().write_blob(header, body).expect("Failed to write a blob");
+                                        writer.borrow_mut().as_mut()
+                                            .ok_or(anyhow!("The file header was not written"))?
+                                            .write_blob(header, body)
+                                            .with_context(|| anyhow!("Failed to write blob {}", i))
                                     }
-                                );
+                                )?;
                             }
                         }
                     }
-                });
+                    Ok(())
+                })
             }
-        );
-
-        Ok(())
+        )
     }
 }
 
@@ -359,22 +361,32 @@ impl ParallelWriter {
         let path = self.path.clone();
         let file_info = self.file_info.clone();
         let compression_type = self.compression_type.clone();
+        let result = Arc::new(Mutex::new(Ok(())));
+        let result_clone = result.clone();
         writing_pool_guard.in_all_threads(
             Arc::new(move || {
                 PBF_WRITER.with(|writer| {
                     if writer.borrow().is_none() {
-                        let mut w = Writer::from_file_info(
-                            path.clone(),
-                            file_info.clone(),
-                            compression_type.clone(),
-                        ).unwrap();
-                        w.write_header().unwrap();
-                        writer.replace(Some(w));
+                        match Self::create_writer(path.clone(), file_info.clone(), compression_type.clone()) {
+                            Ok(w) => {
+                                writer.replace(Some(w));
+                            }
+                            Err(e) => {
+                                *result_clone.lock().unwrap() = Err(e);
+                            }
+                        }
                     }
                 })
             })
         );
-        Ok(())
+        let mut result_guard = result.lock().unwrap();
+        std::mem::replace(result_guard.deref_mut(), Ok(()))
+    }
+
+    fn create_writer(path: PathBuf, file_info: FileInfo, compression_type: CompressionType) -> Result<Writer, Error> {
+        let mut writer = Writer::from_file_info(path, file_info, compression_type)?;
+        writer.write_header()?;
+        Ok(writer)
     }
 
     /// Write an [Element]
-- 
2.43.0


From ce9c59b645976e0fc0ac32db6f1d5135a9cf72f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 06/36] fix: return an error, not a panic, when a parallel
 iteration task fails

---
 src/osm/pbf/bounding_box_calculator.rs | 1 +
 src/osm/pbf/reader.rs                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index d9806f6..da09f45 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -25,6 +25,7 @@ impl BoundingBoxCalculator {
             .with_tasks(num_cpus::get())
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
+            .with_join_error_handler(|_name, _message| {})
             .build()?;
 
         let result = Arc::new(
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 57db0df..8123214 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -186,6 +186,7 @@ impl Reader {
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .with_name_str("parallel-element-iterator")
+            .with_join_error_handler(|_name, _message| {})
             .build()?;
 
         let f_wrapper = Arc::new(f);
-- 
2.43.0


From cf54533a783b9c994fefbf632219cf047c3b24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 07/36] fix: accept relations directly after nodes in the
 Writer

---
 src/osm/pbf/element_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/element_accumulator.rs b/src/osm/pbf/element_accumulator.rs
index 70eaa6b..33bc49e 100644
--- a/src/osm/pbf/element_accumulator.rs
+++ b/src/osm/pbf/element_accumulator.rs
@@ -43,7 +43,10 @@ impl ElementAccumulator {
                         self.add(element);
                     }
                     Element::Relation { .. } => {
-                        panic!("expected Element::Node or Element::Way but got Element::Relation");
+                        self.state = State::Relations;
+                        result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                        self.index += 1;
+                        self.add(element);
                     }
                     Element::Sentinel => {}
                 }
-- 
2.43.0


From 27dddd6bc77b68efd8dfb3cdf53a04c6c5209ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 08/36] fix: pass Writer::write_elements through the element
 accumulator

---
 src/osm/pbf/writer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index 9feb2b0..b737bd8 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -166,7 +166,7 @@ impl Writer {
         match elements {
             None => {}
             Some(elements) => {
-                self.write_elements(elements)?;
+                self.write_elements_block(elements)?;
             }
         }
         Ok(())
@@ -176,6 +176,13 @@ impl Writer {
     /// Elements must be ordered, that is each element must be less then or equal to the following
     /// element
     pub fn write_elements(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
+        for element in elements {
+            self.write_element(element)?;
+        }
+        Ok(())
+    }
+
+    fn write_elements_block(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
         let index = self.element_accumulator.index();
         let data = FileBlock::Data {
             metadata: FileBlockMetadata::new(
@@ -194,7 +201,7 @@ impl Writer {
     pub fn close(&mut self) -> Result<(), anyhow::Error> {
         let elements = self.element_accumulator.elements();
         if !elements.is_empty() {
-            self.write_elements(elements)?;
+            self.write_elements_block(elements)?;
         }
         Ok(())
     }
-- 
2.43.0


From d929defe350716d01bc6f1d82183ea820927501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 09/36] fix: serialize all primitive groups of a block of mixed
 elements

---
 src/osm/pbf/osm_data.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index fd3deba..ba46de7 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -356,20 +356,25 @@ impl OsmData {
                 Element::Sentinel => {}
             }
         }
-        let mut primitivegroup = PrimitiveGroup::default();
+        let mut primitivegroup = Vec::new();
         if dense_group_builder.is_some() {
-            primitivegroup = dense_group_builder.unwrap().build();
-        } else if ways_group_builder.is_some() {
-            primitivegroup = ways_group_builder.unwrap().build();
-        } else if relations_group_builder.is_some() {
-            primitivegroup = relations_group_builder.unwrap().build();
+            primitivegroup.push(dense_group_builder.unwrap().build());
+        }
+        if ways_group_builder.is_some() {
+            primitivegroup.push(ways_group_builder.unwrap().build());
+        }
+        if relations_group_builder.is_some() {
+            primitivegroup.push(relations_group_builder.unwrap().build());
+        }
+        if primitivegroup.is_empty() {
+            primitivegroup.push(PrimitiveGroup::default());
         }
 
         let stringtable = string_table_builder.build();
 
         let primitive_block = PrimitiveBlock {
             stringtable,
-            primitivegroup: vec![primitivegroup],
+            primitivegroup,
             granularity: Some(granularity),
             lat_offset: Some(lat_offset),
             lon_offset: Some(lon_offset),
-- 
2.43.0


From 0cdbe26146c6c6ec599e27ab1e96d5179a1ae49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 10/36] fix: round the header bounding box to nanodegrees

---
 src/osm/pbf/osm_header.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osm/pbf/osm_header.rs b/src/osm/pbf/osm_header.rs
index fac0fab..cf80fe6 100644
--- a/src/osm/pbf/osm_header.rs
+++ b/src/osm/pbf/osm_header.rs
@@ -62,10 +62,10 @@ impl OsmHeader {
 
     fn header_bbox(&self) -> Option<osmpbf::HeaderBBox> {
         self.info.bounding_box().as_ref().map(|bounding_box| osmpbf::HeaderBBox {
-            left: (bounding_box.left() * NANODEG) as i64,
-            right: (bounding_box.right() * NANODEG) as i64,
-            top: (bounding_box.top() * NANODEG) as i64,
-            bottom: (bounding_box.bottom() * NANODEG) as i64,
+            left: (bounding_box.left() * NANODEG).round() as i64,
+            right: (bounding_box.right() * NANODEG).round() as i64,
+            top: (bounding_box.top() * NANODEG).round() as i64,
+            bottom: (bounding_box.bottom() * NANODEG).round() as i64,
         })
     }
 
-- 
2.43.0


From e24bc327351d79182d7e804a5a6da61a21c84b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 11/36] fix: compute the bounding box of files without nodes
 and of mixed blocks

---
 src/osm/pbf/bounding_box_calculator.rs   | 3 ++-
 src/osm/pbf/calc_bounding_box_command.rs | 4 +---
 src/osm/pbf/osm_data.rs                  | 6 +++---
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index da09f45..c576c21 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -1,6 +1,7 @@
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 
+use anyhow::anyhow;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool_builder::ThreadPoolBuilder;
 
@@ -48,6 +49,6 @@ impl BoundingBoxCalculator {
         tp.shutdown();
         tp.join()?;
         let mut result_guard = result.lock().unwrap();
-        Ok(result_guard.take().unwrap())
+        result_guard.take().ok_or(anyhow!("No nodes found in {}", self.path.display()))
     }
 }
diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index 4244201..b66c254 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -39,9 +39,7 @@ impl Command for CalcBoundingBoxCommand {
                             bounding_box.as_mut().unwrap().merge_point(node.coordinate());
                         }
                     }
-                    _ => {
-                        break;
-                    }
+                    _ => {}
                 }
             }
             if bounding_box.is_some() {
diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index ba46de7..58d1597 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -77,9 +77,9 @@ impl OsmData {
                         result.as_mut().unwrap().merge_point(node.coordinate());
                     }
                 }
-                Element::Way { .. } => { break; }
-                Element::Relation { .. } => { break; }
-                Element::Sentinel => { break; }
+                Element::Way { .. } => {}
+                Element::Relation { .. } => {}
+                Element::Sentinel => {}
             }
         }
         result
-- 
2.43.0


From e26bd62328f2ad04ece93a87e3036a010e42fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 12/36] fix: write a readable header block when no header field
 is set

---
 src/osm/pbf/file_block.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index b211f4e..8eecda5 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -178,20 +178,17 @@ impl FileBlock {
             }
         };
 
-        let mut raw_size = None;
-        let mut data = None;
-        if !block_data.is_empty() {
-            raw_size = Some(block_data.len() as i32);
-            data = match compression {
-                CompressionType::Uncompressed => {
-                    Some(Data::Raw(block_data))
-                }
-                CompressionType::Zlib => {
-                    let encoded = Self::zlib_encode(block_data, compression_level)?;
-                    Some(Data::ZlibData(encoded))
-                }
-            };
-        }
+        // an empty message is a valid block, for example a header without any field set
+        let raw_size = Some(block_data.len() as i32);
+        let data = match compression {
+            CompressionType::Uncompressed => {
+                Some(Data::Raw(block_data))
+            }
+            CompressionType::Zlib => {
+                let encoded = Self::zlib_encode(block_data, compression_level)?;
+                Some(Data::ZlibData(encoded))
+            }
+        };
 
         let blob = osmpbf::Blob {
             raw_size,
-- 
2.43.0


From d3de065779843af0d8cd59c1ff8d595b4c3a4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 13/36] fix: preserve the order of relation members read from
 an apidb dump

---
 src/osm/apidb_dump/read/table_pkey.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osm/apidb_dump/read/table_pkey.rs b/src/osm/apidb_dump/read/table_pkey.rs
index 121b3c9..faf731c 100644
--- a/src/osm/apidb_dump/read/table_pkey.rs
+++ b/src/osm/apidb_dump/read/table_pkey.rs
@@ -50,10 +50,11 @@ impl TablePkey {
                 // ADD CONSTRAINT relation_members_pkey PRIMARY KEY (relation_id, version, member_type, member_id, member_role, sequence_id);
                 key.push(Field::new(Self::index("relation_id", &fields)?, FieldType::Integer).with_str_name("relation_id"));
                 key.push(Field::new(Self::index("version", &fields)?, FieldType::Integer).with_str_name("version"));
+                // the order of members is significant, sort by sequence_id before the rest of the key
+                key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
                 key.push(Field::new(Self::index("member_type", &fields)?, FieldType::String).with_str_name("member_type"));
                 key.push(Field::new(Self::index("member_id", &fields)?, FieldType::Integer).with_str_name("member_id"));
                 key.push(Field::new(Self::index("member_role", &fields)?, FieldType::String).with_str_name("member_role"));
-                key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
             }
             "public.relation_tags" => {
                 // ADD CONSTRAINT relation_tags_pkey PRIMARY KEY (relation_id, version, k);
-- 
2.43.0


From 9ab7739ff2895d4b92da7e16cde7265b91372abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 14/36] fix: report a truncated or malformed blob header
 instead of ending the iteration

---
 src/osm/pbf/blob_iterator.rs           | 59 +++++++++++++++++++-------
 src/osm/pbf/bounding_box_calculator.rs | 25 +++++++----
 src/osm/pbf/file_block_iterator.rs     |  3 +-
 src/osm/pbf/reader.rs                  | 27 ++++++++----
 4 files changed, 80 insertions(+), 34 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index a3ff881..76869f8 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -14,6 +14,7 @@ pub struct BlobIterator {
     file: File,
     jump: u64,
     index: usize,
+    failed: bool,
 }
 
 impl BlobIterator {
@@ -26,29 +27,55 @@ impl BlobIterator {
                 file,
                 jump: 0,
                 index: 0,
+                failed: false,
             }
         )
     }
 }
 
-impl Iterator for BlobIterator {
-    type Item = osm::pbf::blob_desc::BlobDesc;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        self.file.seek(SeekFrom::Current(self.jump as i64)).ok()?;
-        let mut header_len_buffer = [0_u8; 4];
-        self.file.read_exact(&mut header_len_buffer).ok()?;
-        let blob_header_len = i32::from_be_bytes(header_len_buffer);
-        let mut blob_header_buffer = vec![0; blob_header_len as usize];
-        self.file.read_exact(&mut blob_header_buffer).ok()?;
-        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer)).ok()?;
-        let current_offset = self.file.stream_position().ok()?;
-        let length = blob_header.datasize as u64;
+impl BlobIterator {
+    /// Read the next blob header. Ok(None) is the end of the file, which is only valid at the
+    /// boundary of a blob.
+    fn read_next(&mut self) -> Result<Option<osm::pbf::blob_desc::BlobDesc>, anyhow::Error> {
+        self.file.seek(SeekFrom::Current(self.jump as i64))?;
+        let mut header_len_buffer = Vec::with_capacity(4);
+        self.file.by_ref().take(4).read_to_end(&mut header_len_buffer)?;
+        if header_len_buffer.is_empty() {
+            return Ok(None);
+        }
+        let header_len_bytes: [u8; 4] = header_len_buffer.as_slice().try_into()
+            .with_context(|| anyhow!("truncated header length of blob {} in {:?}", self.index, self.path))?;
+        let blob_header_len = u32::from_be_bytes(header_len_bytes) as u64;
+        let mut blob_header_buffer = Vec::new();
+        self.file.by_ref().take(blob_header_len).read_to_end(&mut blob_header_buffer)?;
+        if (blob_header_buffer.len() as u64) < blob_header_len {
+            return Err(anyhow!("truncated header of blob {} in {:?}", self.index, self.path));
+        }
+        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer))
+            .with_context(|| anyhow!("Failed to decode the header of blob {} in {:?}", self.index, self.path))?;
+        let current_offset = self.file.stream_position()?;
+        let length = u64::try_from(blob_header.datasize)
+            .with_context(|| anyhow!("negative size of blob {} in {:?}", self.index, self.path))?;
         self.jump = length;
         let index = self.index;
         self.index.add_assign(1);
-        Some(
-            osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+        Ok(
+            Some(
+                osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+            )
         )
     }
-}
\ No newline at end of file
+}
+
+impl Iterator for BlobIterator {
+    type Item = Result<osm::pbf::blob_desc::BlobDesc, anyhow::Error>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.failed {
+            return None;
+        }
+        let result = self.read_next();
+        self.failed = result.is_err();
+        result.transpose()
+    }
+}
diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index c576c21..ac82133 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -35,19 +35,28 @@ impl BoundingBoxCalculator {
             )
         );
         let reader = Reader::new(&self.path)?;
+        let mut blobs_result = Ok(());
         for blob in reader.blobs()? {
-            tp.submit(
-                Box::new(
-                    CalcBoundingBoxCommand::new(
-                        blob,
-                        result.clone(),
-                    )
-                )
-            );
+            match blob {
+                Ok(blob) => {
+                    tp.submit(
+                        Box::new(
+                            CalcBoundingBoxCommand::new(
+                                blob,
+                                result.clone(),
+                            )
+                        )
+                    );
+                }
+                Err(e) => {
+                    blobs_result = Err(e);
+                }
+            }
         }
 
         tp.shutdown();
         tp.join()?;
+        blobs_result?;
         let mut result_guard = result.lock().unwrap();
         result_guard.take().ok_or(anyhow!("No nodes found in {}", self.path.display()))
     }
diff --git a/src/osm/pbf/file_block_iterator.rs b/src/osm/pbf/file_block_iterator.rs
index a42d5df..f469843 100644
--- a/src/osm/pbf/file_block_iterator.rs
+++ b/src/osm/pbf/file_block_iterator.rs
@@ -18,7 +18,8 @@ impl Iterator for FileBlockIterator {
     type Item = FileBlock;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let blob_desc = self.blob_iterator.next()?;
+        let blob_desc = self.blob_iterator.next()?
+            .unwrap_or_else(|e| panic!("Failed to read a blob: {e:#}"));
         Some(
             FileBlock::from_blob_desc(&blob_desc)
                 .unwrap_or_else(|_| panic!("Failed to create a file block from blob {} from {:?}",
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 8123214..a9c65cd 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -10,6 +10,7 @@ use command_executor::thread_pool_builder::ThreadPoolBuilder;
 use crate::osm::model::element::Element;
 use crate::osm::pbf::blob_iterator::BlobIterator;
 use crate::osm::pbf::element_iterator::ElementIterator;
+use crate::osm::pbf::file_block::FileBlock;
 use crate::osm::pbf::file_block_iterator::FileBlockIterator;
 use crate::osm::pbf::file_info::FileInfo;
 use crate::osm::pbf::parallel_element_iteration_command::ParallelElementIterationCommand;
@@ -49,10 +50,10 @@ impl Reader {
             path: path.to_path_buf(),
             info: Default::default(),
         };
-        let mut block_iterator = reader.clone().blocks()?;
-        let file_block = block_iterator.next().ok_or(
+        let blob_desc = reader.blobs()?.next().ok_or(
             anyhow!("Failed to parse file header, path: {}", path.display())
-        )?;
+        )??;
+        let file_block = FileBlock::from_blob_desc(&blob_desc)?;
         let osm_header = file_block.as_osm_header()?;
         reader.info = osm_header.info().clone();
 
@@ -190,18 +191,26 @@ impl Reader {
             .build()?;
 
         let f_wrapper = Arc::new(f);
+        let mut result = Ok(());
         for blob_desc in self.blobs()? {
             let f_wrapper_clone = f_wrapper.clone();
-            iteration_pool.submit(
-                Box::new(
-                    ParallelElementIterationCommand::new(blob_desc, f_wrapper_clone)
-                )
-            );
+            match blob_desc {
+                Ok(blob_desc) => {
+                    iteration_pool.submit(
+                        Box::new(
+                            ParallelElementIterationCommand::new(blob_desc, f_wrapper_clone)
+                        )
+                    );
+                }
+                Err(e) => {
+                    result = Err(e);
+                }
+            }
         }
 
         iteration_pool.shutdown();
         iteration_pool.join()?;
-        Ok(())
+        result
     }
 
     fn find_missing_features(supported_features: &[String], required_features: &[String]) -> Vec<String> {
-- 
2.43.0


From ecadc41a46313e09d284ab8e2221e9af2eb927bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 15/36] fix: encode and decode apidb text columns in the COPY
 text format

---
 src/osm/apidb_dump/read/table_reader.rs | 21 ++++----
 src/osm/apidb_dump/sql.rs               | 68 +++++++++++++++++++++++++
 src/osm/apidb_dump/write/writer.rs      | 18 +++----
 3 files changed, 87 insertions(+), 20 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index ee4abbc..29c5b1b 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -4,7 +4,6 @@ use std::io::prelude::*;
 use std::str::FromStr;
 
 use anyhow::anyhow;
-use unescape::unescape;
 
 use crate::osm::apidb_dump::read::changeset_record::ChangesetRecord;
 use crate::osm::apidb_dump::read::node_record::NodeRecord;
@@ -19,7 +18,7 @@ use crate::osm::apidb_dump::read::user_record::{FormatEnum, UserRecord, UserStat
 use crate::osm::apidb_dump::read::way_node_record::WayNodeRecord;
 use crate::osm::apidb_dump::read::way_record::WayRecord;
 use crate::osm::apidb_dump::read::way_tag_record::WayTagRecord;
-use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time};
+use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time, unescape_copy_text};
 
 struct RecordBuilder {
     f: fn(&str, &TableDef, usize) -> Option<TableRecord>,
@@ -182,8 +181,8 @@ impl TableReader {
                         node_tag_record: NodeTagRecord::new(
                             i64::from_str(columns[*node_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_copy_text(columns[*k]),
+                            unescape_copy_text(columns[*v]),
                         )
                     }
                 )
@@ -261,8 +260,8 @@ impl TableReader {
                         way_tag_record: WayTagRecord::new(
                             i64::from_str(columns[*way_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_copy_text(columns[*k]),
+                            unescape_copy_text(columns[*v]),
                         )
                     }
                 )
@@ -318,7 +317,7 @@ impl TableReader {
                             i64::from_str(columns[*relation_id]).unwrap(),
                             RelationMemberType::try_from(columns[*member_type]).unwrap(),
                             i64::from_str(columns[*member_id]).unwrap(),
-                            unescape(columns[*member_role]).unwrap_or(columns[*member_role].to_string()),
+                            unescape_copy_text(columns[*member_role]),
                             i64::from_str(columns[*version]).unwrap(),
                             i64::from_str(columns[*sequence_id]).unwrap(),
                         )
@@ -344,8 +343,8 @@ impl TableReader {
                         relation_tag_record: RelationTagRecord::new(
                             i64::from_str(columns[*relation_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_copy_text(columns[*k]),
+                            unescape_copy_text(columns[*v]),
                         )
                     }
                 )
@@ -431,9 +430,9 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             columns[*pass_crypt].to_string(),
                             parse_sql_time(columns[*creation_time]).unwrap(),
-                            columns[*display_name].to_string(),
+                            unescape_copy_text(columns[*display_name]),
                             parse_sql_bool(columns[*data_public]).unwrap(),
-                            columns[*description].to_string(),
+                            unescape_copy_text(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
                             i16::from_str(columns[*home_zoom]).unwrap(),
diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index f3cd056..12c4059 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -35,6 +35,74 @@ pub(crate) fn parse_sql_null_string(s: &str) -> Option<String> {
     }
 }
 
+/// Escape a value as required by the text format of the COPY command
+pub(crate) fn escape_copy_text(s: &str) -> String {
+    let mut result = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' => { result.push_str("\\\\") }
+            '\u{8}' => { result.push_str("\\b") }
+            '\u{c}' => { result.push_str("\\f") }
+            '\n' => { result.push_str("\\n") }
+            '\r' => { result.push_str("\\r") }
+            '\t' => { result.push_str("\\t") }
+            '\u{b}' => { result.push_str("\\v") }
+            _ => { result.push(c) }
+        }
+    }
+    result
+}
+
+/// Decode a value in the text format of the COPY command
+pub(crate) fn unescape_copy_text(s: &str) -> String {
+    let bytes = s.as_bytes();
+    let mut result = Vec::with_capacity(bytes.len());
+    let mut i = 0;
+    while i < bytes.len() {
+        let b = bytes[i];
+        i += 1;
+        if b != b'\\' || i == bytes.len() {
+            result.push(b);
+            continue;
+        }
+        let escaped = bytes[i];
+        i += 1;
+        match escaped {
+            b'b' => { result.push(0x08) }
+            b'f' => { result.push(0x0c) }
+            b'n' => { result.push(b'\n') }
+            b'r' => { result.push(b'\r') }
+            b't' => { result.push(b'\t') }
+            b'v' => { result.push(0x0b) }
+            b'0'..=b'7' => {
+                // one to three octal digits
+                let mut value = (escaped - b'0') as u32;
+                let end = bytes.len().min(i + 2);
+                while i < end && (b'0'..=b'7').contains(&bytes[i]) {
+                    value = value * 8 + (bytes[i] - b'0') as u32;
+                    i += 1;
+                }
+                result.push(value as u8);
+            }
+            b'x' if i < bytes.len() && bytes[i].is_ascii_hexdigit() => {
+                // one or two hexadecimal digits
+                let mut value = 0_u32;
+                let end = bytes.len().min(i + 2);
+                while i < end {
+                    match (bytes[i] as char).to_digit(16) {
+                        None => { break; }
+                        Some(digit) => { value = value * 16 + digit }
+                    }
+                    i += 1;
+                }
+                result.push(value as u8);
+            }
+            _ => { result.push(escaped) }
+        }
+    }
+    String::from_utf8(result).unwrap_or_else(|_| s.to_string())
+}
+
 pub(crate) fn to_sql_time_millis(t: i64) -> String {
     let datetime = DateTime::from_timestamp_millis(t).unwrap();
     let sql_time: String = datetime.to_rfc3339_opts(SecondsFormat::Secs, true);
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 626a4ff..d06eec5 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -3,9 +3,8 @@ use std::io::Write;
 use std::path::PathBuf;
 
 use anyhow::{Context, Error};
-use escape_string::escape;
 
-use crate::osm::apidb_dump::sql::{calculate_tile, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
+use crate::osm::apidb_dump::sql::{calculate_tile, escape_copy_text, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
 use crate::osm::apidb_dump::write::table_data_writers::TableDataWriters;
 use crate::osm::apidb_dump::write::toc::{load_template_mapping, write_toc};
@@ -121,8 +120,8 @@ impl Writer {
         for tag in tags {
             // public.node_tags (node_id, version, k, v)
             // template context: 4259.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_copy_text(tag.k());
+            let escaped_tag = escape_copy_text(tag.v());
             let node_tag_line = format!("{}\t{}\t{}\t{}\n",
                                         node.id(),
                                         node.version(),
@@ -196,8 +195,8 @@ impl Writer {
         for tag in way.take_tags() {
             // public.current_way_tags (way_id, k, v)
             // template context: 4235.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_copy_text(tag.k());
+            let escaped_tag = escape_copy_text(tag.v());
             let current_way_tag_line = format!("{}\t{}\t{}\n",
                                                way.id(),
                                                escaped_key,
@@ -277,7 +276,7 @@ impl Writer {
 
             // public.current_relation_members (relation_id, member_type, member_id, member_role, sequence_id)
             // template context: 4230.dat
-            let escaped_role = escape(member_role);
+            let escaped_role = escape_copy_text(member_role);
             let current_relation_member_line = format!("{}\t{}\t{}\t{}\t{}\n",
                                                        relation.id(),
                                                        member_type,
@@ -314,8 +313,8 @@ impl Writer {
         for tag in relation.take_tags() {
             // public.current_relation_tags (relation_id, k, v)
             // template context: 4231.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_copy_text(tag.k());
+            let escaped_tag = escape_copy_text(tag.v());
             let current_relation_tag_line = format!("{}\t{}\t{}\n",
                                                     relation.id(),
                                                     escaped_key,
@@ -422,6 +421,7 @@ impl Writer {
         // template context: 4290.dat
         for element in self.writers.user_index.range(..)? {
             let (user_id, user_name) = element?;
+            let user_name = escape_copy_text(&user_name);
 
             let t = chrono::offset::Utc::now();
             let osm_admin_user = format!("osm-admin-user-{}@example.com", user_id);
-- 
2.43.0


From e6b778f3a573b65ea4e48af9a0a431eaf1b02cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 16/36] verif: guarded hook points in the ParallelWriter
 pipeline (cfg osm_io_verif)

---
 src/osm/pbf/mod.rs             |  3 +++
 src/osm/pbf/parallel_writer.rs |  6 ++++++
 src/osm/pbf/verif_hook.rs      | 20 ++++++++++++++++++++
 3 files changed, 29 insertions(+)
 create mode 100644 src/osm/pbf/verif_hook.rs

diff --git a/src/osm/pbf/mod.rs b/src/osm/pbf/mod.rs
index 78259e5..8f8c79c 100644
--- a/src/osm/pbf/mod.rs
+++ b/src/osm/pbf/mod.rs
@@ -21,3 +21,6 @@ pub(crate) mod osm_header;
 pub(crate) mod blob_iterator;
 pub(crate) mod blob_desc;
 pub(crate) mod calc_bounding_box_command;
+#[allow(unexpected_cfgs)]
+#[cfg(osm_io_verif)]
+pub mod verif_hook;
diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 3be2ffb..504af36 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -226,6 +226,9 @@ impl Command for EncodeFileBlockCommand {
         let mut elements_guard = self.elements.lock().unwrap();
         let file_block = FileBlock::from_elements(self.index, std::mem::take(&mut elements_guard));
         let (blob_header, blob_body) = FileBlock::serialize(&file_block, compression_type())?;
+        #[allow(unexpected_cfgs)]
+        #[cfg(osm_io_verif)]
+        crate::osm::pbf::verif_hook::point("encoded", self.index);
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -259,6 +262,9 @@ impl WriteBlobCommand {
 
 impl Command for WriteBlobCommand {
     fn execute(&self) -> Result<(), Error> {
+        #[allow(unexpected_cfgs)]
+        #[cfg(osm_io_verif)]
+        crate::osm::pbf::verif_hook::point("arrived", self.index);
         BLOB_ORDERING_BUFFER.with(
             |buffer| {
                 let mut blob_header_guard = self.blob_header.lock().unwrap();
diff --git a/src/osm/pbf/verif_hook.rs b/src/osm/pbf/verif_hook.rs
new file mode 100644
index 0000000..53c8313
--- /dev/null
+++ b/src/osm/pbf/verif_hook.rs
@@ -0,0 +1,20 @@
+//! Points in the pipeline of the [crate::osm::pbf::parallel_writer::ParallelWriter] at which an
+//! external verification harness can observe and delay the processing of a file block.
+//! Compiled only with `--cfg osm_io_verif`.
+use std::sync::{Arc, RwLock};
+
+pub type Hook = Arc<dyn Fn(&str, usize) + Send + Sync>;
+
+static HOOK: RwLock<Option<Hook>> = RwLock::new(None);
+
+/// Install or remove the hook, called with the name of the point and the index of the block
+pub fn set(hook: Option<Hook>) {
+    *HOOK.write().unwrap() = hook;
+}
+
+pub(crate) fn point(name: &str, index: usize) {
+    let hook = HOOK.read().unwrap().clone();
+    if let Some(hook) = hook {
+        hook(name, index);
+    }
+}
-- 
2.43.0


From 828b10d2614abcce8cb20cec423add85bc5a8c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 17/36] fix: read dense nodes whose metadata lacks some columns

---
 src/osm/pbf/osm_data.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index 58d1597..a98d2f9 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -97,10 +97,15 @@ impl OsmData {
             let mut uid = -1_i32;
             let mut last_user_sid = 0_i32;
 
-            if let Some(_info) = &dense.denseinfo {
+            if let Some(info) = &dense.denseinfo {
                 last_timestamp = 0_i64;
-                last_changeset = 0_i64;
-                uid = 0_i32;
+                // each column of the metadata is optional
+                if !info.changeset.is_empty() {
+                    last_changeset = 0_i64;
+                }
+                if !info.uid.is_empty() {
+                    uid = 0_i32;
+                }
                 last_user_sid = 0_i32;
             }
             let mut visible = true;
@@ -114,18 +119,18 @@ impl OsmData {
                 let mut version = 0_i32;
                 let mut user: String = String::default();
                 if let Some(info) = &dense.denseinfo {
-                    last_timestamp += info.timestamp[i];
+                    last_timestamp += info.timestamp.get(i).unwrap_or(&0);
                     timestamp = last_timestamp * date_granularity as i64;
-                    last_changeset += info.changeset[i];
-                    uid += info.uid[i];
-                    last_user_sid += info.user_sid[i];
+                    last_changeset += info.changeset.get(i).unwrap_or(&0);
+                    uid += info.uid.get(i).unwrap_or(&0);
+                    last_user_sid += info.user_sid.get(i).unwrap_or(&0);
                     let user_sid = last_user_sid as usize;
                     if info.visible.len() > i {
                         visible = info.visible[i];
                     } else {
                         visible = true;
                     }
-                    version = info.version[i];
+                    version = *info.version.get(i).unwrap_or(&0);
                     user = string_table.index(user_sid).clone();
                 }
 
-- 
2.43.0


From a04de6f93bd295ba2c387394a797f2473d181e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 18/36] fix: iterate over consecutive empty blocks without
 recursion

---
 src/osm/pbf/element_iterator.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 256dd25..4e57828 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -39,22 +39,14 @@ impl Iterator for ElementIterator {
     type Item = Element;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.element_iterator {
-            None => {
-                None
-            }
-            Some(element_iterator) => {
-                let element = element_iterator.next();
-                match &element {
-                    None => {
-                        self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
-                        self.next()
-                    }
-                    Some(_) => {
-                        element
-                    }
-                }
+        // a file can contain any number of consecutive empty blocks
+        while let Some(element_iterator) = &mut self.element_iterator {
+            let element = element_iterator.next();
+            if element.is_some() {
+                return element;
             }
+            self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
         }
+        None
     }
 }
-- 
2.43.0


From 4d2e2c24277ea9bcef822fb77ddba32f67fd6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 19/36] fix: do not leave spinning threads behind when a file
 cannot be opened

---
 src/osm/pbf/bounding_box_calculator.rs | 5 +++--
 src/osm/pbf/reader.rs                  | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index ac82133..cb74df8 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -21,6 +21,8 @@ impl BoundingBoxCalculator {
     }
 
     pub fn calc(&self) -> Result<BoundingBox, anyhow::Error> {
+        // open the file before the threads are started: they only end when the pool is shut down
+        let blobs = Reader::new(&self.path)?.blobs()?;
         let mut tp = ThreadPoolBuilder::new()
             .with_name_str("bounding-box-calculator")
             .with_tasks(num_cpus::get())
@@ -34,9 +36,8 @@ impl BoundingBoxCalculator {
                 None
             )
         );
-        let reader = Reader::new(&self.path)?;
         let mut blobs_result = Ok(());
-        for blob in reader.blobs()? {
+        for blob in blobs {
             match blob {
                 Ok(blob) => {
                     tp.submit(
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index a9c65cd..dac6046 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -182,6 +182,8 @@ impl Reader {
     /// }
     /// ```
     pub fn parallel_for_each(&self, tasks: usize, f: impl Fn(Element) -> Result<(), anyhow::Error> + Send + Sync + 'static) -> Result<(), anyhow::Error> {
+        // open the file before the threads are started: they only end when the pool is shut down
+        let blobs = self.blobs()?;
         let mut iteration_pool = ThreadPoolBuilder::new()
             .with_tasks(tasks)
             .with_queue_size(1024)
@@ -192,7 +194,7 @@ impl Reader {
 
         let f_wrapper = Arc::new(f);
         let mut result = Ok(());
-        for blob_desc in self.blobs()? {
+        for blob_desc in blobs {
             let f_wrapper_clone = f_wrapper.clone();
             match blob_desc {
                 Ok(blob_desc) => {
-- 
2.43.0


From b24cab3308218535fe3c2e21b5117cda74025fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 20/36] fix: return an error, not a panic, when a closed
 ParallelWriter is used

---
 src/osm/pbf/parallel_writer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 504af36..1473c46 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -325,6 +325,7 @@ pub struct ParallelWriter {
     element_ordering_pool: Arc<RwLock<ThreadPool>>,
     encoding_pool: Arc<RwLock<ThreadPool>>,
     writing_pool: Arc<RwLock<ThreadPool>>,
+    closed: bool,
 }
 
 impl ParallelWriter {
@@ -354,6 +355,7 @@ impl ParallelWriter {
                 element_ordering_pool,
                 encoding_pool,
                 writing_pool,
+                closed: false,
             }
         )
     }
@@ -362,6 +364,7 @@ impl ParallelWriter {
     ///
     /// Must be called before writing the first element.
     pub fn write_header(&mut self) -> Result<(), Error> {
+        self.verify_open()?;
         let writing_pool_guard = self.writing_pool.read()
             .map_err(|e| anyhow!("{}", e))?;
         let path = self.path.clone();
@@ -397,6 +400,7 @@ impl ParallelWriter {
 
     /// Write an [Element]
     pub fn write_element(&mut self, element: Element) -> Result<(), Error> {
+        self.verify_open()?;
         self.element_ordering_pool
             .read()
             .unwrap()
@@ -406,6 +410,7 @@ impl ParallelWriter {
 
     /// Write list of [Element]s
     pub fn write_elements(&mut self, elements: Vec<Element>) -> Result<(), Error> {
+        self.verify_open()?;
         self.element_ordering_pool
             .read()
             .unwrap()
@@ -415,6 +420,8 @@ impl ParallelWriter {
 
     /// Flush internal buffers.
     pub fn close(&mut self) -> Result<(), Error> {
+        self.verify_open()?;
+        self.closed = true;
         self.flush_element_ordering();
         let ordering_result = Self::shutdown(self.element_ordering_pool.clone());
         let encoding_result = Self::shutdown(self.encoding_pool.clone());
@@ -423,6 +430,15 @@ impl ParallelWriter {
         ordering_result.and(encoding_result).and(writing_result)
     }
 
+    // the thread pools cannot be used after they were shut down
+    fn verify_open(&self) -> Result<(), Error> {
+        if self.closed {
+            Err(anyhow!("The writer is closed"))
+        } else {
+            Ok(())
+        }
+    }
+
     fn flush_element_ordering(&self) {
         let element_ordering_pool_guard = self.element_ordering_pool.read().unwrap();
         element_ordering_pool_guard.in_all_threads(Arc::new(flush_all_sorted))
-- 
2.43.0


From 84e5d9ed8de52316dfd64d31284ce0a2718d0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 21/36] fix: read apidb dumps with null changeset bounds or
 home zoom

---
 src/osm/apidb_dump/read/changeset_record.rs | 24 ++++++++++-----------
 src/osm/apidb_dump/read/table_reader.rs     | 10 ++++-----
 src/osm/apidb_dump/read/user_record.rs      |  6 +++---
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/osm/apidb_dump/read/changeset_record.rs b/src/osm/apidb_dump/read/changeset_record.rs
index 928bacc..086d489 100644
--- a/src/osm/apidb_dump/read/changeset_record.rs
+++ b/src/osm/apidb_dump/read/changeset_record.rs
@@ -5,10 +5,10 @@ pub(crate) struct ChangesetRecord {
     id: i64,
     user_id: i64,
     created_at: NaiveDateTime,
-    min_lat: i32,
-    max_lat: i32,
-    min_lon: i32,
-    max_lon: i32,
+    min_lat: Option<i32>,
+    max_lat: Option<i32>,
+    min_lon: Option<i32>,
+    max_lon: Option<i32>,
     closed_at: NaiveDateTime,
     num_changes: i32,
 }
@@ -19,10 +19,10 @@ impl ChangesetRecord {
         id: i64,
         user_id: i64,
         created_at: NaiveDateTime,
-        min_lat: i32,
-        max_lat: i32,
-        min_lon: i32,
-        max_lon: i32,
+        min_lat: Option<i32>,
+        max_lat: Option<i32>,
+        min_lon: Option<i32>,
+        max_lon: Option<i32>,
         closed_at: NaiveDateTime,
         num_changes: i32,
     ) -> ChangesetRecord {
@@ -53,22 +53,22 @@ impl ChangesetRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lat(&self) -> i32 {
+    pub(crate) fn min_lat(&self) -> Option<i32> {
         self.min_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lat(&self) -> i32 {
+    pub(crate) fn max_lat(&self) -> Option<i32> {
         self.max_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lon(&self) -> i32 {
+    pub(crate) fn min_lon(&self) -> Option<i32> {
         self.min_lon
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lon(&self) -> i32 {
+    pub(crate) fn max_lon(&self) -> Option<i32> {
         self.max_lon
     }
 
diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 29c5b1b..bd3074b 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -374,10 +374,10 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             i64::from_str(columns[*user_id]).unwrap(),
                             parse_sql_time(columns[*created_at]).unwrap(),
-                            i32::from_str(columns[*min_lat]).unwrap(),
-                            i32::from_str(columns[*max_lat]).unwrap(),
-                            i32::from_str(columns[*min_lon]).unwrap(),
-                            i32::from_str(columns[*max_lon]).unwrap(),
+                            i32::from_str(columns[*min_lat]).ok(),
+                            i32::from_str(columns[*max_lat]).ok(),
+                            i32::from_str(columns[*min_lon]).ok(),
+                            i32::from_str(columns[*max_lon]).ok(),
                             parse_sql_time(columns[*closed_at]).unwrap(),
                             i32::from_str(columns[*num_changes]).unwrap(),
                         )
@@ -435,7 +435,7 @@ impl TableReader {
                             unescape_copy_text(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
-                            i16::from_str(columns[*home_zoom]).unwrap(),
+                            i16::from_str(columns[*home_zoom]).ok(),
                             parse_sql_null_string(columns[*pass_salt]),
                             parse_sql_bool(columns[*email_valid]).unwrap(),
                             parse_sql_null_string(columns[*new_email]),
diff --git a/src/osm/apidb_dump/read/user_record.rs b/src/osm/apidb_dump/read/user_record.rs
index d0d9670..df15ff7 100644
--- a/src/osm/apidb_dump/read/user_record.rs
+++ b/src/osm/apidb_dump/read/user_record.rs
@@ -76,7 +76,7 @@ pub(crate) struct UserRecord {
     description: String,
     home_lat: Option<f64>,
     home_lon: Option<f64>,
-    home_zoom: i16,
+    home_zoom: Option<i16>,
     pass_salt: Option<String>,
     email_valid: bool,
     new_email: Option<String>,
@@ -110,7 +110,7 @@ impl UserRecord {
         description: String,
         home_lat: Option<f64>,
         home_lon: Option<f64>,
-        home_zoom: i16,
+        home_zoom: Option<i16>,
         pass_salt: Option<String>,
         email_valid: bool,
         new_email: Option<String>,
@@ -208,7 +208,7 @@ impl UserRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn home_zoom(&self) -> i16 {
+    pub(crate) fn home_zoom(&self) -> Option<i16> {
         self.home_zoom
     }
 
-- 
2.43.0


From f9ed1bdc298ff95ed80fb61941ea2ccddaa9b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 22/36] fix: read apidb dumps whose table of contents has other
 text with COPY, quoted table names or tables without columns

---
 src/osm/apidb_dump/read/reader.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/osm/apidb_dump/read/reader.rs b/src/osm/apidb_dump/read/reader.rs
index a4d8d3d..36c1c50 100644
--- a/src/osm/apidb_dump/read/reader.rs
+++ b/src/osm/apidb_dump/read/reader.rs
@@ -39,7 +39,11 @@ impl Reader {
         let re = Regex::new("^([^ ]+) \\((.+)\\)$").unwrap();
         for raw_table_def in raw_table_defs {
             let table_data_path = input_path.join(&raw_table_def.1);
-            let captures = re.captures(&raw_table_def.0).unwrap();
+            let captures = match re.captures(&raw_table_def.0) {
+                Some(captures) => captures,
+                // a table without columns or with a quoted name, not one of interest
+                None => continue,
+            };
             let name = captures.get(1).unwrap().as_str();
             if !TableFields::is_of_interest(name) {
                 continue;
@@ -101,6 +105,10 @@ impl Reader {
                 i.add_assign(copy.len());
                 start_table_def = i;
                 while i < toc.len() {
+                    if toc[i..].starts_with(copy) {
+                        // the previous occurrence was not a statement, part of a comment for example
+                        start_table_def = i + copy.len();
+                    }
                     if toc[i..].starts_with(from_stdin) {
                         end_table_def = i;
                         i.add_assign(from_stdin.len());
-- 
2.43.0


From 25b67917dca6c20b1066bebe436cadf9b3caf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 23/36] fix: return an error, not a panic, when a file of a
 dump cannot be created or an index cannot grow

---
 .../apidb_dump/write/table_data_writers.rs    | 118 +++++++++---------
 1 file changed, 59 insertions(+), 59 deletions(-)

diff --git a/src/osm/apidb_dump/write/table_data_writers.rs b/src/osm/apidb_dump/write/table_data_writers.rs
index 355b4bd..7faa7ba 100644
--- a/src/osm/apidb_dump/write/table_data_writers.rs
+++ b/src/osm/apidb_dump/write/table_data_writers.rs
@@ -76,59 +76,59 @@ impl TableDataWriters {
         let changeset_user_index_buffer = HashMap::<i64, i64>::new();
 
         Ok(TableDataWriters {
-            acls: TableDataWriter::new("public.acls".to_string(), template_mapping["public.acls"].to_string(), output_path).unwrap(),
-            active_storage_attachments: TableDataWriter::new("public.active_storage_attachments".to_string(), template_mapping["public.active_storage_attachments"].to_string(), output_path).unwrap(),
-            active_storage_blobs: TableDataWriter::new("public.active_storage_blobs".to_string(), template_mapping["public.active_storage_blobs"].to_string(), output_path).unwrap(),
-            active_storage_variant_records: TableDataWriter::new("public.active_storage_variant_records".to_string(), template_mapping["public.active_storage_variant_records"].to_string(), output_path).unwrap(),
-            ar_internal_metadata: TableDataWriter::new("public.ar_internal_metadata".to_string(), template_mapping["public.ar_internal_metadata"].to_string(), output_path).unwrap(),
-            changeset_comments: TableDataWriter::new("public.changeset_comments".to_string(), template_mapping["public.changeset_comments"].to_string(), output_path).unwrap(),
-            changeset_tags: TableDataWriter::new("public.changeset_tags".to_string(), template_mapping["public.changeset_tags"].to_string(), output_path).unwrap(),
-            changesets: TableDataWriter::new("public.changesets".to_string(), template_mapping["public.changesets"].to_string(), output_path).unwrap(),
-            changesets_subscribers: TableDataWriter::new("public.changesets_subscribers".to_string(), template_mapping["public.changesets_subscribers"].to_string(), output_path).unwrap(),
-            client_applications: TableDataWriter::new("public.client_applications".to_string(), template_mapping["public.client_applications"].to_string(), output_path).unwrap(),
-            current_node_tags: TableDataWriter::new("public.current_node_tags".to_string(), template_mapping["public.current_node_tags"].to_string(), output_path).unwrap(),
-            current_nodes: TableDataWriter::new("public.current_nodes".to_string(), template_mapping["public.current_nodes"].to_string(), output_path).unwrap(),
-            current_relation_members: TableDataWriter::new("public.current_relation_members".to_string(), template_mapping["public.current_relation_members"].to_string(), output_path).unwrap(),
-            current_relation_tags: TableDataWriter::new("public.current_relation_tags".to_string(), template_mapping["public.current_relation_tags"].to_string(), output_path).unwrap(),
-            current_relations: TableDataWriter::new("public.current_relations".to_string(), template_mapping["public.current_relations"].to_string(), output_path).unwrap(),
-            current_way_nodes: TableDataWriter::new("public.current_way_nodes".to_string(), template_mapping["public.current_way_nodes"].to_string(), output_path).unwrap(),
-            current_way_tags: TableDataWriter::new("public.current_way_tags".to_string(), template_mapping["public.current_way_tags"].to_string(), output_path).unwrap(),
-            current_ways: TableDataWriter::new("public.current_ways".to_string(), template_mapping["public.current_ways"].to_string(), output_path).unwrap(),
-            delayed_jobs: TableDataWriter::new("public.delayed_jobs".to_string(), template_mapping["public.delayed_jobs"].to_string(), output_path).unwrap(),
-            diary_comments: TableDataWriter::new("public.diary_comments".to_string(), template_mapping["public.diary_comments"].to_string(), output_path).unwrap(),
-            diary_entries: TableDataWriter::new("public.diary_entries".to_string(), template_mapping["public.diary_entries"].to_string(), output_path).unwrap(),
-            diary_entry_subscriptions: TableDataWriter::new("public.diary_entry_subscriptions".to_string(), template_mapping["public.diary_entry_subscriptions"].to_string(), output_path).unwrap(),
-            friends: TableDataWriter::new("public.friends".to_string(), template_mapping["public.friends"].to_string(), output_path).unwrap(),
-            gps_points: TableDataWriter::new("public.gps_points".to_string(), template_mapping["public.gps_points"].to_string(), output_path).unwrap(),
-            gpx_file_tags: TableDataWriter::new("public.gpx_file_tags".to_string(), template_mapping["public.gpx_file_tags"].to_string(), output_path).unwrap(),
-            gpx_files: TableDataWriter::new("public.gpx_files".to_string(), template_mapping["public.gpx_files"].to_string(), output_path).unwrap(),
-            issue_comments: TableDataWriter::new("public.issue_comments".to_string(), template_mapping["public.issue_comments"].to_string(), output_path).unwrap(),
-            issues: TableDataWriter::new("public.issues".to_string(), template_mapping["public.issues"].to_string(), output_path).unwrap(),
-            languages: TableDataWriter::new("public.languages".to_string(), template_mapping["public.languages"].to_string(), output_path).unwrap(),
-            messages: TableDataWriter::new("public.messages".to_string(), template_mapping["public.messages"].to_string(), output_path).unwrap(),
-            node_tags: TableDataWriter::new("public.node_tags".to_string(), template_mapping["public.node_tags"].to_string(), output_path).unwrap(),
-            nodes: TableDataWriter::new("public.nodes".to_string(), template_mapping["public.nodes"].to_string(), output_path).unwrap(),
-            note_comments: TableDataWriter::new("public.note_comments".to_string(), template_mapping["public.note_comments"].to_string(), output_path).unwrap(),
-            notes: TableDataWriter::new("public.notes".to_string(), template_mapping["public.notes"].to_string(), output_path).unwrap(),
-            oauth_access_grants: TableDataWriter::new("public.oauth_access_grants".to_string(), template_mapping["public.oauth_access_grants"].to_string(), output_path).unwrap(),
-            oauth_access_tokens: TableDataWriter::new("public.oauth_access_tokens".to_string(), template_mapping["public.oauth_access_tokens"].to_string(), output_path).unwrap(),
-            oauth_applications: TableDataWriter::new("public.oauth_applications".to_string(), template_mapping["public.oauth_applications"].to_string(), output_path).unwrap(),
-            oauth_nonces: TableDataWriter::new("public.oauth_nonces".to_string(), template_mapping["public.oauth_nonces"].to_string(), output_path).unwrap(),
-            oauth_tokens: TableDataWriter::new("public.oauth_tokens".to_string(), template_mapping["public.oauth_tokens"].to_string(), output_path).unwrap(),
-            redactions: TableDataWriter::new("public.redactions".to_string(), template_mapping["public.redactions"].to_string(), output_path).unwrap(),
-            relation_members: TableDataWriter::new("public.relation_members".to_string(), template_mapping["public.relation_members"].to_string(), output_path).unwrap(),
-            relation_tags: TableDataWriter::new("public.relation_tags".to_string(), template_mapping["public.relation_tags"].to_string(), output_path).unwrap(),
-            relations: TableDataWriter::new("public.relations".to_string(), template_mapping["public.relations"].to_string(), output_path).unwrap(),
-            reports: TableDataWriter::new("public.reports".to_string(), template_mapping["public.reports"].to_string(), output_path).unwrap(),
-            schema_migrations: TableDataWriter::new("public.schema_migrations".to_string(), template_mapping["public.schema_migrations"].to_string(), output_path).unwrap(),
-            user_blocks: TableDataWriter::new("public.user_blocks".to_string(), template_mapping["public.user_blocks"].to_string(), output_path).unwrap(),
-            user_preferences: TableDataWriter::new("public.user_preferences".to_string(), template_mapping["public.user_preferences"].to_string(), output_path).unwrap(),
-            user_roles: TableDataWriter::new("public.user_roles".to_string(), template_mapping["public.user_roles"].to_string(), output_path).unwrap(),
-            user_tokens: TableDataWriter::new("public.user_tokens".to_string(), template_mapping["public.user_tokens"].to_string(), output_path).unwrap(),
-            users: TableDataWriter::new("public.users".to_string(), template_mapping["public.users"].to_string(), output_path).unwrap(),
-            way_nodes: TableDataWriter::new("public.way_nodes".to_string(), template_mapping["public.way_nodes"].to_string(), output_path).unwrap(),
-            way_tags: TableDataWriter::new("public.way_tags".to_string(), template_mapping["public.way_tags"].to_string(), output_path).unwrap(),
-            ways: TableDataWriter::new("public.ways".to_string(), template_mapping["public.ways"].to_string(), output_path).unwrap(),
+            acls: TableDataWriter::new("public.acls".to_string(), template_mapping["public.acls"].to_string(), output_path)?,
+            active_storage_attachments: TableDataWriter::new("public.active_storage_attachments".to_string(), template_mapping["public.active_storage_attachments"].to_string(), output_path)?,
+            active_storage_blobs: TableDataWriter::new("public.active_storage_blobs".to_string(), template_mapping["public.active_storage_blobs"].to_string(), output_path)?,
+            active_storage_variant_records: TableDataWriter::new("public.active_storage_variant_records".to_string(), template_mapping["public.active_storage_variant_records"].to_string(), output_path)?,
+            ar_internal_metadata: TableDataWriter::new("public.ar_internal_metadata".to_string(), template_mapping["public.ar_internal_metadata"].to_string(), output_path)?,
+            changeset_comments: TableDataWriter::new("public.changeset_comments".to_string(), template_mapping["public.changeset_comments"].to_string(), output_path)?,
+            changeset_tags: TableDataWriter::new("public.changeset_tags".to_string(), template_mapping["public.changeset_tags"].to_string(), output_path)?,
+            changesets: TableDataWriter::new("public.changesets".to_string(), template_mapping["public.changesets"].to_string(), output_path)?,
+            changesets_subscribers: TableDataWriter::new("public.changesets_subscribers".to_string(), template_mapping["public.changesets_subscribers"].to_string(), output_path)?,
+            client_applications: TableDataWriter::new("public.client_applications".to_string(), template_mapping["public.client_applications"].to_string(), output_path)?,
+            current_node_tags: TableDataWriter::new("public.current_node_tags".to_string(), template_mapping["public.current_node_tags"].to_string(), output_path)?,
+            current_nodes: TableDataWriter::new("public.current_nodes".to_string(), template_mapping["public.current_nodes"].to_string(), output_path)?,
+            current_relation_members: TableDataWriter::new("public.current_relation_members".to_string(), template_mapping["public.current_relation_members"].to_string(), output_path)?,
+            current_relation_tags: TableDataWriter::new("public.current_relation_tags".to_string(), template_mapping["public.current_relation_tags"].to_string(), output_path)?,
+            current_relations: TableDataWriter::new("public.current_relations".to_string(), template_mapping["public.current_relations"].to_string(), output_path)?,
+            current_way_nodes: TableDataWriter::new("public.current_way_nodes".to_string(), template_mapping["public.current_way_nodes"].to_string(), output_path)?,
+            current_way_tags: TableDataWriter::new("public.current_way_tags".to_string(), template_mapping["public.current_way_tags"].to_string(), output_path)?,
+            current_ways: TableDataWriter::new("public.current_ways".to_string(), template_mapping["public.current_ways"].to_string(), output_path)?,
+            delayed_jobs: TableDataWriter::new("public.delayed_jobs".to_string(), template_mapping["public.delayed_jobs"].to_string(), output_path)?,
+            diary_comments: TableDataWriter::new("public.diary_comments".to_string(), template_mapping["public.diary_comments"].to_string(), output_path)?,
+            diary_entries: TableDataWriter::new("public.diary_entries".to_string(), template_mapping["public.diary_entries"].to_string(), output_path)?,
+            diary_entry_subscriptions: TableDataWriter::new("public.diary_entry_subscriptions".to_string(), template_mapping["public.diary_entry_subscriptions"].to_string(), output_path)?,
+            friends: TableDataWriter::new("public.friends".to_string(), template_mapping["public.friends"].to_string(), output_path)?,
+            gps_points: TableDataWriter::new("public.gps_points".to_string(), template_mapping["public.gps_points"].to_string(), output_path)?,
+            gpx_file_tags: TableDataWriter::new("public.gpx_file_tags".to_string(), template_mapping["public.gpx_file_tags"].to_string(), output_path)?,
+            gpx_files: TableDataWriter::new("public.gpx_files".to_string(), template_mapping["public.gpx_files"].to_string(), output_path)?,
+            issue_comments: TableDataWriter::new("public.issue_comments".to_string(), template_mapping["public.issue_comments"].to_string(), output_path)?,
+            issues: TableDataWriter::new("public.issues".to_string(), template_mapping["public.issues"].to_string(), output_path)?,
+            languages: TableDataWriter::new("public.languages".to_string(), template_mapping["public.languages"].to_string(), output_path)?,
+            messages: TableDataWriter::new("public.messages".to_string(), template_mapping["public.messages"].to_string(), output_path)?,
+            node_tags: TableDataWriter::new("public.node_tags".to_string(), template_mapping["public.node_tags"].to_string(), output_path)?,
+            nodes: TableDataWriter::new("public.nodes".to_string(), template_mapping["public.nodes"].to_string(), output_path)?,
+            note_comments: TableDataWriter::new("public.note_comments".to_string(), template_mapping["public.note_comments"].to_string(), output_path)?,
+            notes: TableDataWriter::new("public.notes".to_string(), template_mapping["public.notes"].to_string(), output_path)?,
+            oauth_access_grants: TableDataWriter::new("public.oauth_access_grants".to_string(), template_mapping["public.oauth_access_grants"].to_string(), output_path)?,
+            oauth_access_tokens: TableDataWriter::new("public.oauth_access_tokens".to_string(), template_mapping["public.oauth_access_tokens"].to_string(), output_path)?,
+            oauth_applications: TableDataWriter::new("public.oauth_applications".to_string(), template_mapping["public.oauth_applications"].to_string(), output_path)?,
+            oauth_nonces: TableDataWriter::new("public.oauth_nonces".to_string(), template_mapping["public.oauth_nonces"].to_string(), output_path)?,
+            oauth_tokens: TableDataWriter::new("public.oauth_tokens".to_string(), template_mapping["public.oauth_tokens"].to_string(), output_path)?,
+            redactions: TableDataWriter::new("public.redactions".to_string(), template_mapping["public.redactions"].to_string(), output_path)?,
+            relation_members: TableDataWriter::new("public.relation_members".to_string(), template_mapping["public.relation_members"].to_string(), output_path)?,
+            relation_tags: TableDataWriter::new("public.relation_tags".to_string(), template_mapping["public.relation_tags"].to_string(), output_path)?,
+            relations: TableDataWriter::new("public.relations".to_string(), template_mapping["public.relations"].to_string(), output_path)?,
+            reports: TableDataWriter::new("public.reports".to_string(), template_mapping["public.reports"].to_string(), output_path)?,
+            schema_migrations: TableDataWriter::new("public.schema_migrations".to_string(), template_mapping["public.schema_migrations"].to_string(), output_path)?,
+            user_blocks: TableDataWriter::new("public.user_blocks".to_string(), template_mapping["public.user_blocks"].to_string(), output_path)?,
+            user_preferences: TableDataWriter::new("public.user_preferences".to_string(), template_mapping["public.user_preferences"].to_string(), output_path)?,
+            user_roles: TableDataWriter::new("public.user_roles".to_string(), template_mapping["public.user_roles"].to_string(), output_path)?,
+            user_tokens: TableDataWriter::new("public.user_tokens".to_string(), template_mapping["public.user_tokens"].to_string(), output_path)?,
+            users: TableDataWriter::new("public.users".to_string(), template_mapping["public.users"].to_string(), output_path)?,
+            way_nodes: TableDataWriter::new("public.way_nodes".to_string(), template_mapping["public.way_nodes"].to_string(), output_path)?,
+            way_tags: TableDataWriter::new("public.way_tags".to_string(), template_mapping["public.way_tags"].to_string(), output_path)?,
+            ways: TableDataWriter::new("public.ways".to_string(), template_mapping["public.ways"].to_string(), output_path)?,
 
             user_index,
             changeset_user_index,
@@ -138,14 +138,14 @@ impl TableDataWriters {
     }
 
     pub(crate) fn flush_buffers(&mut self) -> Result<(), anyhow::Error> {
-        self.user_index_buffer.iter().for_each(|(user_id, user)| {
-            self.user_index.insert(*user_id, user.to_string()).unwrap();
-        });
+        for (user_id, user) in &self.user_index_buffer {
+            self.user_index.insert(*user_id, user.to_string())?;
+        }
         self.user_index_buffer.clear();
 
-        self.changeset_user_index_buffer.iter().for_each(|(changeset_id, user_id)| {
-            self.changeset_user_index.insert(*changeset_id, *user_id).unwrap();
-        });
+        for (changeset_id, user_id) in &self.changeset_user_index_buffer {
+            self.changeset_user_index.insert(*changeset_id, *user_id)?;
+        }
         self.changeset_user_index_buffer.clear();
         Ok(())
     }
-- 
2.43.0


From f6889e8d04f42c7a6fac126ecb5e6c2e70f23371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 24/36] fix: return an error when the file of a table in an
 apidb dump is missing or truncated

A truncated file was read as if it were complete, and the threads of the sort
kept running when the file was missing.
---
 src/osm/apidb_dump/read/reader.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/osm/apidb_dump/read/reader.rs b/src/osm/apidb_dump/read/reader.rs
index 36c1c50..c732485 100644
--- a/src/osm/apidb_dump/read/reader.rs
+++ b/src/osm/apidb_dump/read/reader.rs
@@ -1,5 +1,7 @@
 use std::collections::HashMap;
 use std::fs;
+use std::fs::File;
+use std::io::{Read, Seek, SeekFrom};
 use std::ops::{AddAssign, SubAssign};
 use std::path::PathBuf;
 use anyhow::{anyhow, Context};
@@ -76,6 +78,7 @@ impl Reader {
         let ignore_regex = Regex::new("^\\\\\\.$")?;
         for (table_name, table_def) in tables {
             log::info!("Sort {} table data", table_name);
+            Self::check_end_of_data(table_def)?;
             fs::create_dir_all(table_def.tmp_path())?;
             let mut text_file = Sort::new(vec![table_def.path()], table_def.sorted_path());
             text_file.with_tmp_dir(table_def.tmp_path());
@@ -89,6 +92,24 @@ impl Reader {
         Ok(())
     }
 
+    // the data of a table ends with a line that holds just \., otherwise the file was truncated
+    fn check_end_of_data(table_def: &TableDef) -> Result<(), anyhow::Error> {
+        let path = table_def.path();
+        let mut file = File::open(&path).with_context(|| anyhow!("path: {}", path.display()))?;
+        let length = file.metadata()?.len();
+        file.seek(SeekFrom::Start(length.saturating_sub(64)))?;
+        let mut tail = Vec::<u8>::new();
+        file.read_to_end(&mut tail)?;
+        while tail.last().map_or(false, |b| b.is_ascii_whitespace()) {
+            tail.pop();
+        }
+        if tail == b"\\." || tail.ends_with(b"\n\\.") {
+            Ok(())
+        } else {
+            Err(anyhow!("Missing end of data marker, file is truncated: {}", path.display()))
+        }
+    }
+
     fn get_table_def_strings(toc: &[u8]) -> Vec<(String, String)> {
         // COPY public.node_tags (node_id, version, k, v) FROM stdin;......3838.dat
         let mut result: Vec<(String, String)> = Vec::new();
-- 
2.43.0


From 30f519a4d23d27221ee53dd2d3d6a7a4f0c6687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 25/36] fix: do not take a row of an apidb dump that cannot be
 read for the end of its table

---
 src/osm/apidb_dump/read/table_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index bd3074b..90586a2 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -518,8 +518,8 @@ impl Iterator for TableIterator {
                     }
                 }
             }
-            Err(_) => {
-                None
+            Err(e) => {
+                panic!("Failed to read line {} of table {}: {}", self.line_number, self.record_builder.table_def.name(), e);
             }
         }
     }
-- 
2.43.0


From dc3b21b65bcb0f1af998d22547f8c2a76eca832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 26/36] fix: report tags, nodes and members of a missing
 version in an apidb dump

The reader waited for the missing version, so that all later versions lost
their tags, nodes and members.
---
 .../apidb_dump/read/node_relations_reader.rs    |  9 +++++++++
 .../read/relation_relations_reader.rs           | 17 +++++++++++++++++
 src/osm/apidb_dump/read/way_relations_reader.rs | 17 +++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/src/osm/apidb_dump/read/node_relations_reader.rs b/src/osm/apidb_dump/read/node_relations_reader.rs
index d0c1c29..c68afe5 100644
--- a/src/osm/apidb_dump/read/node_relations_reader.rs
+++ b/src/osm/apidb_dump/read/node_relations_reader.rs
@@ -94,6 +94,12 @@ impl Iterator for NodeRelationsIterator {
                     }
                 }
 
+                if let Some(node_tag_record) = &self.next_node_tag_record {
+                    if (node_tag_record.node_id(), node_tag_record.version()) < (node_record.node_id(), node_record.version()) {
+                        panic!("Found node tag of missing node {} version {}", node_tag_record.node_id(), node_tag_record.version());
+                    }
+                }
+
                 Some(
                     NodeRelation::new(
                         node_record,
@@ -104,6 +110,9 @@ impl Iterator for NodeRelationsIterator {
                 panic!("Found incorrect record type, not a TableRecord:Node");
             }
         } else {
+            if self.next_node_tag_record.take().is_some() || self.node_tags_iterator.next().is_some() {
+                panic!("Found node tag of a missing node after the last node");
+            }
             None
         }
     }
diff --git a/src/osm/apidb_dump/read/relation_relations_reader.rs b/src/osm/apidb_dump/read/relation_relations_reader.rs
index 47a65d5..243b871 100644
--- a/src/osm/apidb_dump/read/relation_relations_reader.rs
+++ b/src/osm/apidb_dump/read/relation_relations_reader.rs
@@ -143,6 +143,17 @@ impl Iterator for RelationRelationsIterator {
                     }
                 }
 
+                if let Some(relation_tag_record) = &self.next_relation_tag_record {
+                    if (relation_tag_record.relation_id(), relation_tag_record.version()) < (relation_record.relation_id(), relation_record.version()) {
+                        panic!("Found relation tag of missing relation {} version {}", relation_tag_record.relation_id(), relation_tag_record.version());
+                    }
+                }
+                if let Some(relation_member_record) = &self.next_relation_member_record {
+                    if (relation_member_record.relation_id(), relation_member_record.version()) < (relation_record.relation_id(), relation_record.version()) {
+                        panic!("Found relation member of missing relation {} version {}", relation_member_record.relation_id(), relation_member_record.version());
+                    }
+                }
+
                 Some(
                     RelationRelation::new(
                         relation_record,
@@ -154,6 +165,12 @@ impl Iterator for RelationRelationsIterator {
                 panic!("Found incorrect record type, not a TableRecord:Relation");
             }
         } else {
+            if self.next_relation_tag_record.take().is_some() || self.relation_tags_iterator.next().is_some() {
+                panic!("Found relation tag of a missing relation after the last relation");
+            }
+            if self.next_relation_member_record.take().is_some() || self.relation_members_iterator.next().is_some() {
+                panic!("Found relation member of a missing relation after the last relation");
+            }
             None
         }
     }
diff --git a/src/osm/apidb_dump/read/way_relations_reader.rs b/src/osm/apidb_dump/read/way_relations_reader.rs
index 2fddec5..dc5ac94 100644
--- a/src/osm/apidb_dump/read/way_relations_reader.rs
+++ b/src/osm/apidb_dump/read/way_relations_reader.rs
@@ -143,6 +143,17 @@ impl Iterator for WayRelationsIterator {
                     }
                 }
 
+                if let Some(way_tag_record) = &self.next_way_tag_record {
+                    if (way_tag_record.way_id(), way_tag_record.version()) < (way_record.way_id(), way_record.version()) {
+                        panic!("Found way tag of missing way {} version {}", way_tag_record.way_id(), way_tag_record.version());
+                    }
+                }
+                if let Some(way_node_record) = &self.next_way_node_record {
+                    if (way_node_record.way_id(), way_node_record.version()) < (way_record.way_id(), way_record.version()) {
+                        panic!("Found way node of missing way {} version {}", way_node_record.way_id(), way_node_record.version());
+                    }
+                }
+
                 Some(
                     WayRelation::new(
                         way_record,
@@ -154,6 +165,12 @@ impl Iterator for WayRelationsIterator {
                 panic!("Found incorrect record type, not a TableRecord:Way");
             }
         } else {
+            if self.next_way_tag_record.take().is_some() || self.way_tags_iterator.next().is_some() {
+                panic!("Found way tag of a missing way after the last way");
+            }
+            if self.next_way_node_record.take().is_some() || self.way_nodes_iterator.next().is_some() {
+                panic!("Found way node of a missing way after the last way");
+            }
             None
         }
     }
-- 
2.43.0


From 53cfde6518f05160d12367cd1d9f76384832b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:36 +0000
Subject: [PATCH 27/36] fix: return an error instead of waiting forever when a
 worker of a parallel iteration panics

---
 src/osm/pbf/calc_bounding_box_command.rs      | 16 +++++++++++++---
 .../pbf/parallel_element_iteration_command.rs | 19 ++++++++++++++-----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index b66c254..8526fb3 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -1,5 +1,7 @@
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::sync::{Arc, Mutex};
 
+use anyhow::anyhow;
 use command_executor::command::Command;
 
 use crate::osm::model::bounding_box::BoundingBox;
@@ -22,11 +24,9 @@ impl CalcBoundingBoxCommand {
             result,
         }
     }
-}
 
-impl Command for CalcBoundingBoxCommand {
     #[allow(clippy::unnecessary_unwrap)]
-    fn execute(&self) -> Result<(), anyhow::Error> {
+    fn calc(&self) -> Result<(), anyhow::Error> {
         let file_block = FileBlock::from_blob_desc(&self.blob)?;
         if file_block.is_osm_data() {
             let mut bounding_box = None;
@@ -54,3 +54,13 @@ impl Command for CalcBoundingBoxCommand {
         Ok(())
     }
 }
+
+impl Command for CalcBoundingBoxCommand {
+    fn execute(&self) -> Result<(), anyhow::Error> {
+        // a panic ends the thread of the pool, and without threads the pool can't be shut down
+        catch_unwind(AssertUnwindSafe(|| self.calc()))
+            .unwrap_or_else(|_| Err(anyhow!("panic while processing blob {} from {:?}",
+                                            self.blob.index(),
+                                            self.blob.path())))
+    }
+}
diff --git a/src/osm/pbf/parallel_element_iteration_command.rs b/src/osm/pbf/parallel_element_iteration_command.rs
index 131b4f0..508c899 100644
--- a/src/osm/pbf/parallel_element_iteration_command.rs
+++ b/src/osm/pbf/parallel_element_iteration_command.rs
@@ -1,6 +1,7 @@
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::sync::Arc;
 
-use anyhow::Error;
+use anyhow::{anyhow, Error};
 use command_executor::command::Command;
 
 use crate::osm::model::element::Element;
@@ -19,10 +20,8 @@ impl ParallelElementIterationCommand {
             f,
         }
     }
-}
 
-impl Command for ParallelElementIterationCommand {
-    fn execute(&self) -> Result<(), Error> {
+    fn iterate(&self) -> Result<(), Error> {
         let mut file_block = FileBlock::from_blob_desc(&self.blob_desc)?;
         if file_block.is_osm_data() {
             for element in file_block.take_elements() {
@@ -32,4 +31,14 @@ impl Command for ParallelElementIterationCommand {
         }
         Ok(())
     }
-}
\ No newline at end of file
+}
+
+impl Command for ParallelElementIterationCommand {
+    fn execute(&self) -> Result<(), Error> {
+        // a panic ends the thread of the pool, and without threads the pool can't be shut down
+        catch_unwind(AssertUnwindSafe(|| self.iterate()))
+            .unwrap_or_else(|_| Err(anyhow!("panic while processing blob {} from {:?}",
+                                            self.blob_desc.index(),
+                                            self.blob_desc.path())))
+    }
+}
-- 
2.43.0


From 15e07c4566dc3ba0a4c975df0ea53cdb4c6d6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 28/36] fix: verify the size and the checksum of the compressed
 data of a blob

---
 src/osm/pbf/file_block.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index 8eecda5..faf4368 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -99,6 +99,10 @@ impl FileBlock {
         let mut decoder = ZlibDecoder::new(data.as_slice());
         let mut decoded = vec![0_u8; raw_size];
         decoder.read_exact(&mut decoded)?;
+        // the checksum is verified at the end of the data
+        if decoder.read(&mut [0_u8; 1])? != 0 {
+            return Err(anyhow!("Uncompressed data is longer than the declared {raw_size} bytes"));
+        }
         Ok(decoded)
     }
 
@@ -125,7 +129,8 @@ impl FileBlock {
                     }
                     Data::ZlibData(zlib_data) => {
                         // for now ignore that the uncompressed size is optional
-                        FileBlock::zlib_decode(zlib_data, blob.raw_size.unwrap() as usize)
+                        let raw_size = blob.raw_size.ok_or(anyhow!("Missing the size of uncompressed data"))?;
+                        FileBlock::zlib_decode(zlib_data, usize::try_from(raw_size)?)
                     }
                     Data::LzmaData(_) => {
                         Err(
-- 
2.43.0


From 336fa387108d30781f8b9ff0bc0bebf1b2cbd6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 29/36] fix: do not end the iteration over elements at a header
 block in the middle of a file

---
 src/osm/pbf/element_iterator.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 4e57828..f7a2f99 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -21,17 +21,12 @@ impl ElementIterator {
         }
     }
 
-    #[allow(clippy::collapsible_match)]
     fn create_element_iterator(file_block_iterator: &mut FileBlockIterator) -> Option<IntoIter<Element>> {
-        if let Some(current_block) = file_block_iterator.next() {
-            if let FileBlock::Data { metadata: _, mut data } = current_block {
-                Some(data.take_elements().into_iter())
-            } else {
-                None
-            }
-        } else {
-            None
-        }
+        // a header is not the end of the data
+        file_block_iterator.find_map(|current_block| match current_block {
+            FileBlock::Header { .. } => None,
+            FileBlock::Data { metadata: _, mut data } => Some(data.take_elements().into_iter()),
+        })
     }
 }
 
-- 
2.43.0


From 10f378063e8d59d512227cc43b5b4d76fed307ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 30/36] fix: skip blobs of unknown types, as the PBF format
 demands, instead of failing

---
 src/osm/pbf/blob_iterator.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index 76869f8..157e87f 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -34,9 +34,23 @@ impl BlobIterator {
 }
 
 impl BlobIterator {
+    /// Read the header of the next blob of a known type. Blobs of other types are skipped, as the
+    /// format demands.
+    fn read_next(&mut self) -> Result<Option<osm::pbf::blob_desc::BlobDesc>, anyhow::Error> {
+        while let Some(blob_desc) = self.read_next_of_any_type()? {
+            if matches!(blob_desc.t().as_str(), "OSMHeader" | "OSMData") {
+                return Ok(Some(blob_desc));
+            }
+            if self.file.metadata()?.len() < blob_desc.start().saturating_add(blob_desc.length()) {
+                return Err(anyhow!("truncated blob {} in {:?}", blob_desc.index(), self.path));
+            }
+        }
+        Ok(None)
+    }
+
     /// Read the next blob header. Ok(None) is the end of the file, which is only valid at the
     /// boundary of a blob.
-    fn read_next(&mut self) -> Result<Option<osm::pbf::blob_desc::BlobDesc>, anyhow::Error> {
+    fn read_next_of_any_type(&mut self) -> Result<Option<osm::pbf::blob_desc::BlobDesc>, anyhow::Error> {
         self.file.seek(SeekFrom::Current(self.jump as i64))?;
         let mut header_len_buffer = Vec::with_capacity(4);
         self.file.by_ref().take(4).read_to_end(&mut header_len_buffer)?;
-- 
2.43.0


From de07a4377ea4263ca3e643c041c0785ca35c7fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:34 +0000
Subject: [PATCH 31/36] fix: a dump writer that is closed refuses elements, and
 closing it again adds nothing

---
 src/osm/apidb_dump/write/writer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index d06eec5..bccb759 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -2,7 +2,7 @@ use std::fs;
 use std::io::Write;
 use std::path::PathBuf;
 
-use anyhow::{Context, Error};
+use anyhow::{anyhow, Context, Error};
 
 use crate::osm::apidb_dump::sql::{calculate_tile, escape_copy_text, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
@@ -30,6 +30,7 @@ pub struct Writer {
     current_relation_line: CurrentObjectLine,
     current_relation_member_lines: CurrentObjectLines,
     current_relation_tag_lines: CurrentObjectLines,
+    closed: bool,
 }
 
 impl Writer {
@@ -54,12 +55,16 @@ impl Writer {
                 current_relation_line: CurrentObjectLine::new(),
                 current_relation_member_lines: CurrentObjectLines::new(),
                 current_relation_tag_lines: CurrentObjectLines::new(),
+                closed: false,
             }
         )
     }
 
     /// Write an element
     pub fn write_element(&mut self, element: Element) -> Result<(), Error> {
+        if self.closed {
+            return Err(anyhow!("The dump is already closed"));
+        }
         match element {
             Element::Node { node } => {
                 self.write_node(node)?;
@@ -534,11 +539,15 @@ impl Writer {
 
     /// Flush internal buffers and add file terminators
     pub fn close(&mut self) -> Result<(), Error> {
+        if self.closed {
+            return Ok(());
+        }
         self.flush_current_object_lines()?;
         self.writers.flush_buffers()?;
         self.write_users()?;
         self.write_changesets()?;
         self.writers.close()?;
+        self.closed = true;
         Ok(())
     }
 
-- 
2.43.0


From 5daf883331b088366ed92fd4f539d03fe5f74da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:35 +0000
Subject: [PATCH 32/36] fix: a text with more than four numbers is not a
 bounding box

---
 src/osm/model/bounding_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm/model/bounding_box.rs b/src/osm/model/bounding_box.rs
index 782fc41..a1d0c12 100644
--- a/src/osm/model/bounding_box.rs
+++ b/src/osm/model/bounding_box.rs
@@ -94,7 +94,7 @@ impl FromStr for BoundingBox {
         let parts: Vec<&str> = s.split(',')
             .map(|s| s.trim())
             .collect();
-        if parts.len() < 4 {
+        if parts.len() != 4 {
             Err(e)
         } else {
             let left = f64::from_str(parts[0])?;
-- 
2.43.0


From e900d230de9efa29d6f131e4a7e6ce123e5a9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:55 +0000
Subject: [PATCH 33/36] fix: an accumulator keeps nothing once its elements are
 taken

The empty vector with its whole capacity stayed in the thread for every accumulator that was ever used there.
---
 src/osm/pbf/thread_local_accumulator.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/thread_local_accumulator.rs b/src/osm/pbf/thread_local_accumulator.rs
index 35e3230..760f2cb 100644
--- a/src/osm/pbf/thread_local_accumulator.rs
+++ b/src/osm/pbf/thread_local_accumulator.rs
@@ -43,13 +43,8 @@ impl ThreadLocalAccumulator {
 
     pub fn elements(&self) -> Vec<Element> {
         ACCUMULATORS.with(|accumulators| {
-            if !accumulators.borrow().contains_key(self.id.as_str()) {
-                Vec::new()
-            } else {
-                let mut accumulators = accumulators.borrow_mut();
-                let accumulator = accumulators.get_mut(self.id.as_str()).unwrap();
-                std::mem::replace(accumulator, Vec::with_capacity(self.capacity))
-            }
+            // keep nothing for an accumulator that may not be used again
+            accumulators.borrow_mut().remove(self.id.as_str()).unwrap_or_default()
         })
     }
 
-- 
2.43.0


From c2a695a80d0430097aad52e016d6663c0d595e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:55 +0000
Subject: [PATCH 34/36] fix: the ordering buffer stays within its size when
 calls pass more elements than a block holds

One block was cut off for each call, and none for a call with an element that came too late, so that the
buffer grew with the amount of data.
---
 src/osm/pbf/parallel_writer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 1473c46..042d73e 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -192,17 +192,22 @@ impl Command for AddElementsCommand {
     fn execute(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut elements_guard = self.elements.lock().unwrap();
+            let mut result = Ok(());
             for element in elements_guard.take().unwrap() {
                 if element.is_sentinel() {
                     continue;
                 }
-                verify_order(&element)?;
+                result = verify_order(&element);
+                if result.is_err() {
+                    break;
+                }
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
-            if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
+            // a call can pass more elements than a block holds
+            while element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top();
             }
-            Ok(())
+            result
         })
     }
 }
-- 
2.43.0


From c7d9680cf3db10bb80ae8b0b90c252d64b175e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:55 +0000
Subject: [PATCH 35/36] fix: drop encoded blobs after a failed write instead of
 collecting them until the end

---
 src/osm/pbf/parallel_writer.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 042d73e..f038381 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -35,6 +35,9 @@ thread_local! {
     pub static PBF_WRITER: RefCell<Option<Writer>> = const { RefCell::new(None) };
 }
 
+// no blob can follow one that failed to be written, they are dropped
+const NOTHING_TO_WRITE: usize = usize::MAX;
+
 fn flush_sorted_top() {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
@@ -270,6 +273,10 @@ impl Command for WriteBlobCommand {
         #[allow(unexpected_cfgs)]
         #[cfg(osm_io_verif)]
         crate::osm::pbf::verif_hook::point("arrived", self.index);
+        if NEXT_TO_WRITE.with(|next| *next.borrow() == NOTHING_TO_WRITE) {
+            return Ok(());
+        }
+
         BLOB_ORDERING_BUFFER.with(
             |buffer| {
                 let mut blob_header_guard = self.blob_header.lock().unwrap();
@@ -286,21 +293,27 @@ impl Command for WriteBlobCommand {
             |buffer| {
                 NEXT_TO_WRITE.with(|next| {
                     let next_to_write = *next.borrow();
-                    for i in next_to_write..usize::MAX {
-                        match buffer.borrow_mut().remove(&i) {
+                    for i in next_to_write..NOTHING_TO_WRITE {
+                        let blob = buffer.borrow_mut().remove(&i);
+                        match blob {
                             None => {
                                 *next.borrow_mut() = i;
                                 break;
                             }
                             Some((header, body)) => {
-                                PBF_WRITER.with(
+                                let result = PBF_WRITER.with(
                                     |writer| {
                                         writer.borrow_mut().as_mut()
                                             .ok_or(anyhow!("The file header was not written"))?
                                             .write_blob(header, body)
                                             .with_context(|| anyhow!("Failed to write blob {}", i))
                                     }
-                                )?;
+                                );
+                                if result.is_err() {
+                                    *next.borrow_mut() = NOTHING_TO_WRITE;
+                                    buffer.borrow_mut().clear();
+                                    return result;
+                                }
                             }
                         }
                     }
-- 
2.43.0


From 120b4e672c11758731f8a959e49f733a539556bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:38 +0000
Subject: [PATCH 36/36] fix: split blocks that do not fit in a blob

---
 src/osm/pbf/file_block.rs      | 67 ++++++++++++++++++++++------------
 src/osm/pbf/parallel_writer.rs | 40 ++++++++++----------
 src/osm/pbf/writer.rs          |  6 ++-
 3 files changed, 67 insertions(+), 46 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index faf4368..45a88ec 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -18,6 +18,9 @@ use crate::osm::pbf::osm_header::OsmHeader;
 use crate::osmpbf::BlobHeader;
 use crate::osmpbf::blob::Data;
 
+/// The size of a blob, compressed or not, must be less than 32 MiB
+const MAX_BLOB_SIZE: usize = 32 * 1024 * 1024;
+
 /// A header or data file block in *.osm.pbf file
 #[derive(Debug)]
 pub enum FileBlock {
@@ -173,8 +176,9 @@ impl FileBlock {
         Self::deserialize(blob_desc, &mut blob_buffer)
     }
 
-    pub(crate) fn serialize(file_block: &FileBlock, compression: CompressionType) -> Result<(Vec<u8>, Vec<u8>), anyhow::Error> {
-        let (blob_type, compression_level, block_data) = match file_block {
+    /// Serialize to a blob header and a blob. A block that does not fit in a blob is split into several blobs.
+    pub(crate) fn serialize(mut file_block: FileBlock, compression: CompressionType) -> Result<Vec<(Vec<u8>, Vec<u8>)>, anyhow::Error> {
+        let (blob_type, compression_level, block_data) = match &file_block {
             FileBlock::Header { metadata: _, header } => {
                 ("OSMHeader".to_string(), Compression::none(), header.serialize()?)
             }
@@ -184,33 +188,48 @@ impl FileBlock {
         };
 
         // an empty message is a valid block, for example a header without any field set
-        let raw_size = Some(block_data.len() as i32);
-        let data = match compression {
-            CompressionType::Uncompressed => {
-                Some(Data::Raw(block_data))
-            }
-            CompressionType::Zlib => {
-                let encoded = Self::zlib_encode(block_data, compression_level)?;
-                Some(Data::ZlibData(encoded))
-            }
-        };
+        let block_size = block_data.len();
+        if block_size < MAX_BLOB_SIZE {
+            let raw_size = Some(block_size as i32);
+            let data = match compression {
+                CompressionType::Uncompressed => {
+                    Some(Data::Raw(block_data))
+                }
+                CompressionType::Zlib => {
+                    let encoded = Self::zlib_encode(block_data, compression_level)?;
+                    Some(Data::ZlibData(encoded))
+                }
+            };
 
-        let blob = osmpbf::Blob {
-            raw_size,
-            data,
-        };
-        let body = blob.encode_to_vec();
+            let blob = osmpbf::Blob {
+                raw_size,
+                data,
+            };
+            let body = blob.encode_to_vec();
+
+            if body.len() < MAX_BLOB_SIZE {
+                let blob_header = BlobHeader {
+                    r#type: blob_type,
+                    indexdata: None,
+                    datasize: body.len() as i32,
+                };
 
-        let blob_header = BlobHeader {
-            r#type: blob_type,
-            indexdata: None,
-            datasize: body.len() as i32,
-        };
 
+                let header = blob_header.encode_to_vec();
 
-        let header = blob_header.encode_to_vec();
+                return Ok(vec![(header, body)]);
+            }
+        }
 
-        Ok((header, body))
+        if file_block.is_osm_header() || file_block.elements().len() < 2 {
+            return Err(anyhow!("A block of {block_size} bytes exceeds the maximal size of a blob: {MAX_BLOB_SIZE}"));
+        }
+        let index = file_block.index();
+        let mut elements = file_block.take_elements();
+        let tail = elements.split_off(elements.len() / 2);
+        let mut blobs = Self::serialize(Self::from_elements(index, elements), compression.clone())?;
+        blobs.append(&mut Self::serialize(Self::from_elements(index, tail), compression)?);
+        Ok(blobs)
     }
 
     fn deserialize(blob_desc: &BlobDesc, blob_buffer: &mut Vec<u8>) -> Result<FileBlock, anyhow::Error> {
diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index f038381..052a548 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -29,7 +29,7 @@ thread_local! {
     static CURRENT_MIN_ELEMENT: RefCell<Option<Element>> = const { RefCell::new(None) };
 
     #[allow(clippy::type_complexity)]
-    pub static BLOB_ORDERING_BUFFER: RefCell<HashMap<usize, (Vec<u8>, Vec<u8>)>> = RefCell::new(HashMap::new());
+    pub static BLOB_ORDERING_BUFFER: RefCell<HashMap<usize, Vec<(Vec<u8>, Vec<u8>)>>> = RefCell::new(HashMap::new());
     // the first expected block is #1. #0 is the header
     pub static NEXT_TO_WRITE: RefCell<usize> = const { RefCell::new(1) };
     pub static PBF_WRITER: RefCell<Option<Writer>> = const { RefCell::new(None) };
@@ -233,7 +233,7 @@ impl Command for EncodeFileBlockCommand {
     fn execute(&self) -> Result<(), Error> {
         let mut elements_guard = self.elements.lock().unwrap();
         let file_block = FileBlock::from_elements(self.index, std::mem::take(&mut elements_guard));
-        let (blob_header, blob_body) = FileBlock::serialize(&file_block, compression_type())?;
+        let blobs = FileBlock::serialize(file_block, compression_type())?;
         #[allow(unexpected_cfgs)]
         #[cfg(osm_io_verif)]
         crate::osm::pbf::verif_hook::point("encoded", self.index);
@@ -243,7 +243,7 @@ impl Command for EncodeFileBlockCommand {
             thread_pool_guard.submit(
                 Box::new(
                     WriteBlobCommand::new(
-                        self.index, Mutex::new(blob_header), Mutex::new(blob_body),
+                        self.index, Mutex::new(blobs),
                     )
                 )
             );
@@ -254,16 +254,14 @@ impl Command for EncodeFileBlockCommand {
 
 struct WriteBlobCommand {
     index: usize,
-    blob_header: Mutex<Vec<u8>>,
-    blob_body: Mutex<Vec<u8>>,
+    blobs: Mutex<Vec<(Vec<u8>, Vec<u8>)>>,
 }
 
 impl WriteBlobCommand {
-    fn new(index: usize, blob_header: Mutex<Vec<u8>>, blob_body: Mutex<Vec<u8>>) -> WriteBlobCommand {
+    fn new(index: usize, blobs: Mutex<Vec<(Vec<u8>, Vec<u8>)>>) -> WriteBlobCommand {
         WriteBlobCommand {
             index,
-            blob_header,
-            blob_body,
+            blobs,
         }
     }
 }
@@ -279,13 +277,11 @@ impl Command for WriteBlobCommand {
 
         BLOB_ORDERING_BUFFER.with(
             |buffer| {
-                let mut blob_header_guard = self.blob_header.lock().unwrap();
-                let blob_header = std::mem::take(blob_header_guard.deref_mut());
-                let mut blob_body_guard = self.blob_body.lock().unwrap();
-                let blob_body = std::mem::take(blob_body_guard.deref_mut());
+                let mut blobs_guard = self.blobs.lock().unwrap();
+                let blobs = std::mem::take(blobs_guard.deref_mut());
                 buffer
                     .borrow_mut()
-                    .insert(self.index, (blob_header, blob_body));
+                    .insert(self.index, blobs);
             }
         );
 
@@ -294,19 +290,23 @@ impl Command for WriteBlobCommand {
                 NEXT_TO_WRITE.with(|next| {
                     let next_to_write = *next.borrow();
                     for i in next_to_write..NOTHING_TO_WRITE {
-                        let blob = buffer.borrow_mut().remove(&i);
-                        match blob {
+                        let blobs = buffer.borrow_mut().remove(&i);
+                        match blobs {
                             None => {
                                 *next.borrow_mut() = i;
                                 break;
                             }
-                            Some((header, body)) => {
+                            Some(blobs) => {
                                 let result = PBF_WRITER.with(
                                     |writer| {
-                                        writer.borrow_mut().as_mut()
-                                            .ok_or(anyhow!("The file header was not written"))?
-                                            .write_blob(header, body)
-                                            .with_context(|| anyhow!("Failed to write blob {}", i))
+                                        let mut writer_guard = writer.borrow_mut();
+                                        let writer = writer_guard.as_mut()
+                                            .ok_or(anyhow!("The file header was not written"))?;
+                                        for (header, body) in blobs {
+                                            writer.write_blob(header, body)
+                                                .with_context(|| anyhow!("Failed to write blob {}", i))?;
+                                        }
+                                        Ok(())
                                     }
                                 );
                                 if result.is_err() {
diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index b737bd8..108537a 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -143,8 +143,10 @@ impl Writer {
 
     /// Low level API to write a [FileBlock]
     pub fn write_file_block(&mut self, file_block: FileBlock) -> Result<(), anyhow::Error> {
-        let (blob_header, blob_body) = FileBlock::serialize(&file_block, self.compression_type.clone())?;
-        self.write_blob(blob_header, blob_body)
+        for (blob_header, blob_body) in FileBlock::serialize(file_block, self.compression_type.clone())? {
+            self.write_blob(blob_header, blob_body)?;
+        }
+        Ok(())
     }
 
     /// Low level API to write a bytes of a blob
-- 
2.43.0

