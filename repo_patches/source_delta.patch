From 4dafcd32cc363b03e7e72e2b370540e704c7c946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 01/27] fix: reject malformed dates with an error instead of
 panicking

---
 src/parser/serde_util.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index d129182..ff1fcc8 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -1,5 +1,6 @@
 /// de/serialize sketchware's date format into a timestamp using chrono
 pub(crate) mod date_to_timestamp {
+    use std::ops::Range;
     use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
     use serde::{de, Deserialize, Serializer};
     use serde::de::Error;
@@ -7,16 +8,20 @@ pub(crate) mod date_to_timestamp {
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
-        let year = v[0..4].parse::<i32>().map_err(D::Error::custom)?;
-        let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
-        let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
-        let hour = v[8..10].parse::<u32>().map_err(D::Error::custom)?;
-        let minute = v[10..12].parse::<u32>().map_err(D::Error::custom)?;
-        let second = v[12..14].parse::<u32>().map_err(D::Error::custom)?;
+        let part = |range: Range<usize>| v.get(range)
+            .ok_or_else(|| D::Error::custom("a date in the format of yyyyMMddHHmmss"));
+
+        let year = part(0..4)?.parse::<i32>().map_err(D::Error::custom)?;
+        let month = part(4..6)?.parse::<u32>().map_err(D::Error::custom)?;
+        let day = part(6..8)?.parse::<u32>().map_err(D::Error::custom)?;
+        let hour = part(8..10)?.parse::<u32>().map_err(D::Error::custom)?;
+        let minute = part(10..12)?.parse::<u32>().map_err(D::Error::custom)?;
+        let second = part(12..14)?.parse::<u32>().map_err(D::Error::custom)?;
 
         Ok(
-            NaiveDate::from_ymd(year, month, day)
-                .and_hms(hour, minute, second)
+            NaiveDate::from_ymd_opt(year, month, day)
+                .and_then(|date| date.and_hms_opt(hour, minute, second))
+                .ok_or_else(|| D::Error::custom("a valid date"))?
                 .timestamp() as u64
         )
     }
-- 
2.43.0


From 5093e13bafe566f3f5859abd0f17a8a5dbe4bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 02/27] fix: zero-pad the parts of written dates

---
 src/parser/serde_util.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index ff1fcc8..720bf4b 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -2,7 +2,7 @@
 pub(crate) mod date_to_timestamp {
     use std::ops::Range;
     use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
-    use serde::{de, Deserialize, Serializer};
+    use serde::{de, ser, Deserialize, Serializer};
     use serde::de::Error;
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
@@ -27,9 +27,14 @@ pub(crate) mod date_to_timestamp {
     }
 
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
-        let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
+        // only years of four digits fit in sketchware's date format
+        let date = NaiveDateTime::from_timestamp_opt(*timestamp as i64, 0)
+            .filter(|date| (0..=9999).contains(&date.year()))
+            .ok_or_else(|| <S::Error as ser::Error>::custom("timestamp out of range"))?;
+
+        // each parts are zero-padded, the date would otherwise be ambiguous
         let date_str = format!(
-            "{}{}{}{}{}{}",
+            "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
             date.month(),
             date.day(),
-- 
2.43.0


From a0e3d40ed275729ae09f1dd941bd6f310363ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 03/27] fix: don't drop the rest of a file or resource list
 after a blank line

---
 src/parser/file.rs     | 2 +-
 src/parser/resource.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 182c267..9f56d17 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -39,7 +39,7 @@ impl Parsable for File {
 
             } else if cur_section != FileSection::None {
                 // parse the file item if the line isn't empty
-                if line.is_empty() { break; }
+                if line.is_empty() { line_count += 1; continue; }
 
                 let file_item = FileItem::parse(line)
                     .map_err(|err| FileParseError::FileItemParseError {
diff --git a/src/parser/resource.rs b/src/parser/resource.rs
index ac39da4..cc61894 100644
--- a/src/parser/resource.rs
+++ b/src/parser/resource.rs
@@ -42,7 +42,7 @@ impl Parsable for Resource {
 
             } else if cur_section != ResourceSection::None {
                 // parse the resource item if the line isn't empty
-                if line.is_empty() { break; }
+                if line.is_empty() { line_count += 1; continue; }
 
                 let resource_item = ResourceItem::parse(line)
                     .map_err(|err| ResourceParseError::ResourceItemParseError {
-- 
2.43.0


From 959dffca81cd79bc25cb4599897ecf754192508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 04/27] fix: don't drop the rest of the logic data after a line
 that isn't a header

---
 src/parser/logic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 6eb01ac..92228a7 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -33,7 +33,8 @@ impl Parsable for Logic {
 
             if !line.starts_with("@") {
                 // todo: warning: skipping line {} because it doesn't resemble a header
-                break;
+                line_counter += 1;
+                continue;
             }
 
             if line.ends_with("java_var") {
-- 
2.43.0


From ede470c6c504c45b768661cda140304df3156926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 05/27] fix: recognise logic section headers without slicing
 past them

---
 src/parser/logic.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 92228a7..8c33f7f 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -31,16 +31,16 @@ impl Parsable for Logic {
             if line.is_none() { break; }
             let line = line.unwrap();
 
-            if !line.starts_with("@") {
+            let header = if let Some(header) = line.strip_prefix("@") { header } else {
                 // todo: warning: skipping line {} because it doesn't resemble a header
                 line_counter += 1;
                 continue;
-            }
+            };
 
-            if line.ends_with("java_var") {
+            if let Some(screen_name) = header.strip_suffix(".java_var") {
                 // variable pool
                 // read the screen name
-                let screen_name = (&line[1..line.len() - 9]).to_string(); // 8 (length of "java_var") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // parse variables
                 let variable_pool = variable::VariablePool::parse_iter(&mut lines)
@@ -55,10 +55,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .variables = Some(variable_pool);
 
-            } else if line.ends_with("java_list") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_list") {
                 // list variable pool
                 // get the screen name
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 -> length of "java_list" + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let list_variable_pool = list_variable::ListVariablePool::parse_iter(&mut lines)
@@ -74,10 +74,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .list_variables = Some(list_variable_pool);
 
-            } else if line.ends_with("java_components") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_components") {
                 // component pool
                 // get screen name
-                let screen_name = (&line[1..line.len() - 16]).to_string(); // 15 (length of "java_components") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let component_pool = component::ComponentPool::parse_iter(&mut lines)
@@ -93,10 +93,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .components = Some(component_pool);
 
-            } else if line.ends_with("java_events") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_events") {
                 // event pool
                 // get the screen name from the header
-                let screen_name = (&line[1..line.len() - 12]).to_string(); // 11 (length of "java_events") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let event_pool = event::EventPool::parse_iter(&mut lines)
@@ -112,9 +112,9 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .events = Some(event_pool);
 
-            } else if line.ends_with("java_func") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_func") {
                 // moreblocks pool
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 (length of "java_func") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let more_block_pool = more_block::MoreBlockPool::parse_iter(&mut lines)
-- 
2.43.0


From 5b30663a2940df3ae501fe6cbea4466f0b43a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 06/27] fix: don't drop the rest of the view data after a blank
 line

---
 src/parser/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 57ee884..ed665f7 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,7 +25,7 @@ impl Parsable for View {
         let mut fabs = LinkedHashMap::<String, AndroidView>::new();
 
         while let Some(line) = lines.next() {
-            if !line.starts_with("@") { break; }
+            if !line.starts_with("@") { continue; }
 
             let (screen_name, container_type) =
                 &line[1..]
-- 
2.43.0


From c9987be55fcdaefb41f6196583fa30617cafd001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:30 +0000
Subject: [PATCH 07/27] fix: end each written layout with an empty line

---
 src/parser/view.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index ed665f7..78d6f50 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -75,7 +75,10 @@ impl Parsable for View {
                 Ok(reconstructed_layout) => {
                     result.push_str(format!("@{}.xml\n", name).as_str());
                     result.push_str(reconstructed_layout.as_str());
-                    result.push('\n');
+
+                    // a layout ends with an empty line, without it the next header would be taken
+                    // as a view of this layout
+                    result.push_str(if reconstructed_layout.is_empty() { "\n" } else { "\n\n" });
                 }
 
                 Err(err) => {
@@ -88,9 +91,6 @@ impl Parsable for View {
             }
         }
 
-        // separate between the fabs and layouts
-        result.push('\n');
-
         for (name, view) in &self.fabs {
             match view.reconstruct() {
                 Ok(reconstructed_view) => {
-- 
2.43.0


From 3a04010c84d8bc5bd94b06ef8a67a4bea4a380b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 08/27] fix: point sub stacks at the first block of the stack
 instead of the last

---
 src/api/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3f7089a..67b118b 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -181,6 +181,10 @@ impl Blocks {
             let sub_stack1_id = block.sub_stack1
                 .map(|ss1| {
                     let mut ss1_blocks = ss1.to_block_container(*id_counter + 1);
+                    let ss1_first_id = ss1_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss1_last_id = ss1_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -189,12 +193,16 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss1_blocks.0);
 
                     if ss1_last_id != -1 { *id_counter = ss1_last_id as u32; }
-                    ss1_last_id
+                    ss1_first_id
                 }).unwrap_or_else(|| -1);
 
             let sub_stack2_id = block.sub_stack2
                 .map(|ss2| {
                     let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
+                    let ss2_first_id = ss2_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss2_last_id = ss2_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -203,7 +211,7 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss2_blocks.0);
 
                     if ss2_last_id != -1 { *id_counter = ss2_last_id as u32; }
-                    ss2_last_id
+                    ss2_first_id
                 }).unwrap_or_else(|| -1);
 
             /////////
-- 
2.43.0


From f347d3d7baf893e2c7e5f121f8cbcacd07f2ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 09/27] fix: reference block arguments by their own id

---
 src/api/block.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 67b118b..1822ab8 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -257,8 +257,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val,
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -270,8 +270,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -291,12 +291,12 @@ impl Blocks {
                                     BlockType::Argument(ArgumentBlockReturnType::Boolean)
                                 );
 
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             },
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -308,8 +308,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
-- 
2.43.0


From 6042364e54b8b7f2d049a474fccbc832503dde9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:03 +0000
Subject: [PATCH 10/27] fix: keep the type name of blocks that return a list

---
 src/api/block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 1822ab8..c4fab68 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -513,6 +513,11 @@ impl BlockType {
                 Some(type_name.to_string()),
             BlockType::Argument(ArgumentBlockReturnType::Component { type_name }) =>
                 Some(type_name.to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type }) =>
+                Some(match inner_type {
+                    ListItem::String => "List String",
+                    ListItem::Number => "List Number",
+                }.to_string()),
             _ => None
         }
     }
-- 
2.43.0


From 0287f695a86fa77afcb7714be1829d6d34dfe1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 11/27] fix: read an empty number or boolean parameter as an
 empty argument

---
 src/api/block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index c4fab68..3656871 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -690,7 +690,7 @@ impl BlockContent {
                                         value
                                     })?
                             }
-                        } else {
+                        } else if value.is_empty() { ArgValue::Empty } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
                                     value
@@ -713,7 +713,7 @@ impl BlockContent {
                                         value
                                     })?
                             }
-                        } else {
+                        } else if value.is_empty() { ArgValue::Empty } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidNumberArgument {
                                     value
@@ -782,7 +782,7 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
-                                } else {
+                                } else if value.is_empty() { ArgValue::Empty } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidNumberArgument {
                                             value
@@ -807,7 +807,7 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
-                                } else {
+                                } else if value.is_empty() { ArgValue::Empty } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
                                             value
-- 
2.43.0


From d81ac1d0db877570be42f595f0f8f004ef5f99d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 12/27] fix: read block arguments of menu parameters

---
 src/api/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3656871..8b79b5f 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -727,9 +727,16 @@ impl BlockContent {
                     name: name.unwrap(),
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-                        ArgValue::Value(
-                            args.remove(0)
-                        )
+                        let value = args.remove(0);
+
+                        if value.starts_with("@") {
+                            ArgValue::BlockPlaceholder {
+                                block_id: (&value[1..]).parse()
+                                    .map_err(|_| BlockContentParseError::InvalidBlockId {
+                                        value
+                                    })?
+                            }
+                        } else { ArgValue::Value(value) }
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-- 
2.43.0


From 6c178086a22d19c4fd7432a54880cc39e6cd5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 13/27] fix: don't panic on specs with a lone percent sign, an
 unnamed menu or multibyte parameters

---
 src/api/block.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 8b79b5f..d047eef 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -615,23 +615,24 @@ impl BlockContent {
     pub fn parse_wo_params(spec: &str) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone percent sign is a text, it's the modulo operator of "%d % %d"
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
 
             // check if this thing has a name
             // example: %s.name
-            let has_name = s.chars().nth(2)
-                .map(|c| c == '.' && s.len() > 3)
-                .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = s.char_indices().nth(2)
+                .and_then(|(index, _)| s[index..].strip_prefix('.'))
+                .filter(|name| !name.is_empty())
+                .map(|name| name.to_string());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String { name, value: ArgValue::Empty },
                 'b' => Argument::Boolean { name, value: ArgValue::Empty },
                 'd' => Argument::Number { name, value: ArgValue::Empty },
-                'm' => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
+                'm' if name.is_some() => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
                     name: s.chars().nth(1).unwrap().to_string(),
                     full: s.to_string()
@@ -648,17 +649,18 @@ impl BlockContent {
     pub fn parse(spec: String, mut args: Vec<String>) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone percent sign is a text, it's the modulo operator of "%d % %d"
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
 
             // check if this thing has a name
             // example: %s.name
-            let has_name = s.chars().nth(2)
-                .map(|c| c == '.' && s.len() > 3)
-                .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = s.char_indices().nth(2)
+                .and_then(|(index, _)| s[index..].strip_prefix('.'))
+                .filter(|name| !name.is_empty())
+                .map(|name| name.to_string());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String {
@@ -723,7 +725,7 @@ impl BlockContent {
                         }
                     }
                 },
-                'm' => Argument::Menu {
+                'm' if name.is_some() => Argument::Menu {
                     name: name.unwrap(),
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-- 
2.43.0


From 96c85f8969054d62af683bd9dbe4ae2541d8e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:30 +0000
Subject: [PATCH 14/27] fix: keep the resource files of a project unless their
 ids are generated

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 20d8268..dc604b4 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -763,7 +763,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                 fabs
             },
             logic: parser::logic::Logic { screens: logic_screens },
-            resource_files: val.automatic_res_file_ids.then(|| ResourceFiles {
+            resource_files: (!val.automatic_res_file_ids).then(|| ResourceFiles {
                 custom_icon: val.custom_icon,
                 images: image_resource_files,
                 sounds: sound_resource_files,
-- 
2.43.0


From f5a05891eef86f0ee814f794ea1bcae272b1f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 15/27] fix: refuse a resource id that is taken by a resource
 of any type

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index dc604b4..87a477c 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -205,7 +205,7 @@ impl Resources {
         }
 
         // check if there is already a resource file with this id
-        if self.images.contains_key(&id) {
+        if self.get_resource(&id).is_some() {
             return Err(ResourceAdditionError::IdTaken { id });
         }
 
-- 
2.43.0


From 15423deb8f4ce998f9a30f4a48c8c1b9c99c1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 16/27] fix: give a screen without logic the logic name it is
 looked up with

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 87a477c..b6cd7ae 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -353,7 +353,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
                 // if it can't find any logic then create an empty ScreenLogic
                 let logic = val.logic.screens
                     .remove(view_name_to_logic(name.as_str()).as_str())
-                    .unwrap_or_else(||ScreenLogic::new_empty(file_entry.filename.clone()));
+                    .unwrap_or_else(||ScreenLogic::new_empty(view_name_to_logic(name.as_str())));
 
                 // get our fab (if we have one)
                 let fab = val.view.fabs
-- 
2.43.0


From 919a2f4913247a7178587dfdda79fd6e046507a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:36 +0000
Subject: [PATCH 17/27] fix: give every view kind the type id it is read from

---
 src/api/view.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 1b26de5..b7ad16d 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -324,7 +324,7 @@ impl ViewType {
     pub fn get_type_id(&self) -> u8 {
         match self {
             ViewType::LinearLayout { .. }   => 0,
-            ViewType::ScrollView { .. }     => 2,
+            ViewType::ScrollView { orientation: Orientation::Horizontal, .. } => 2,
             ViewType::Button { .. }         => 3,
             ViewType::TextView { .. }       => 4,
             ViewType::EditText { .. }       => 5,
@@ -334,12 +334,13 @@ impl ViewType {
             ViewType::ListView { .. }       => 9,
             ViewType::Spinner { .. }        => 10,
             ViewType::CheckBox { .. }       => 11,
-            ViewType::Switch { .. }         => 12,
-            ViewType::SeekBar { .. }        => 13,
-            ViewType::CalendarView { .. }   => 14,
-            ViewType::Fab { .. }            => 15,
-            ViewType::AdView { .. }         => 16,
-            ViewType::MapView               => 17,
+            ViewType::ScrollView { .. }     => 12,
+            ViewType::Switch { .. }         => 13,
+            ViewType::SeekBar { .. }        => 14,
+            ViewType::CalendarView { .. }   => 15,
+            ViewType::Fab { .. }            => 16,
+            ViewType::AdView { .. }         => 17,
+            ViewType::MapView               => 18,
         }
     }
 
-- 
2.43.0


From 22cbfe7a8c0dfc4ad882d60b227f75b1849eaa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:38 +0000
Subject: [PATCH 18/27] fix: write the type id of the view kind when flattening
 views

---
 src/api/view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/view.rs b/src/api/view.rs
index b7ad16d..1d3dfa3 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -547,6 +547,8 @@ pub fn flatten_views(views: Vec<View>, parent_id: Option<String>, parent_type: O
             result_view.r#type
         };
 
+        result_view.r#type = view_type_id;
+
         // and then just map the variables
         result_view.layout.height = view.height;
         result_view.layout.width = view.width;
-- 
2.43.0


From 999caa1c7b40fc023e1bf0de296af09ec143bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 19/27] fix: don't duplicate an onCreate event that is already
 declared

---
 src/api/screen.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index f40a854..d686333 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -198,12 +198,18 @@ impl Screen {
             // make an event pool if there is none
             if logic_entry.events.is_none() { logic_entry.events = Some(EventPool::default()) }
             if let Some(events) = &mut logic_entry.events {
-                events.0.insert(0, ParserEvent {
-                    event_name: "onCreate".to_string(),
-                    event_type: 3,
-                    target_id: "onCreate".to_string(),
-                    target_type: 0
-                })
+                // don't make a second one if it's already declared, only one of them would get the code
+                let declared = events.0.iter()
+                    .any(|event| event.event_type == 3 && event.event_name == "onCreate");
+
+                if !declared {
+                    events.0.insert(0, ParserEvent {
+                        event_name: "onCreate".to_string(),
+                        event_type: 3,
+                        target_id: "onCreate".to_string(),
+                        target_type: 0
+                    })
+                }
             }
         }
 
-- 
2.43.0


From 041551db4b9560fb8b747b368575fee921554bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 20/27] fix: only leave out the onCreate event of the activity
 when saving

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index b6cd7ae..7b10dd2 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -576,7 +576,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
 
                         // drop this event if its onCreate, but preserve the block container
                         // see `api::screen::Screen::from_parsed` comments for more explanation
-                        if event.event_name == "onCreate" { return None; }
+                        if event.event_type == 3 && event.event_name == "onCreate" { return None; }
 
                         Some(event)
                     })
-- 
2.43.0


From 538bda49af8b61addf495308899fa00ef9af9733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 21/27] fix: keep the target of activity events when saving

---
 src/api/screen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index d686333..957d71f 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -166,7 +166,10 @@ impl EventType {
                 event.target_type = component_type;
             }
 
-            EventType::ActivityEvent => event.event_type = 3
+            EventType::ActivityEvent => {
+                event.event_type = 3;
+                event.target_id = event.event_name.to_owned();
+            }
         }
     }
 }
-- 
2.43.0


From 173b5c6bf88324094af0b62330f7a8ce531b8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:42 +0000
Subject: [PATCH 22/27] fix: refuse an app compat library that is neither
 enabled nor disabled

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 7b10dd2..298a801 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -424,7 +424,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
             screens: activities,
             custom_views,
             libraries: Libraries {
-                app_compat_enabled: val.library.compat.use_yn == "Y",
+                app_compat_enabled: library_conv!("compat", compat, ()).is_some(),
                 firebase: library_conv!("firebase", firebase_db, Firebase {
                     project_id: val.library.firebase_db.data,
                     app_id: val.library.firebase_db.reserved1,
-- 
2.43.0


From 84e210b732f6b7aadfd90401c5e006aba5dd507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:49 +0000
Subject: [PATCH 23/27] fix: keep the spaces at the end of an entry of the
 logic file

The pools of variables, list variables and more blocks, and each section
of the file, were trimmed of all white space when written, and so lost
the spaces at the end of a more block's spec or of a name.
---
 src/parser/logic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 8c33f7f..b1fcb51 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -245,8 +245,8 @@ impl Parsable for Logic {
             .chain(event_containers)
             .chain(more_block_containers)
             .chain(block_containers)
-            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim()))
-            .trim()
+            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim_matches('\n')))
+            .trim_matches('\n')
             .to_string()
         )
     }
@@ -393,7 +393,7 @@ pub mod variable {
                 .fold(String::new(), |acc, i|
                     format!("{}\n{}", acc, i.reconstruct().unwrap() /* this never fails */ )
                 )
-                .trim()
+                .trim_matches('\n') // spaces belong to the entries
                 .to_string())
         }
     }
@@ -550,7 +550,7 @@ pub mod list_variable {
                 .fold(String::new(), |acc, i|
                     format!("{}\n{}", acc, i.reconstruct().unwrap() /* this never fails */ )
                 )
-                .trim()
+                .trim_matches('\n') // spaces belong to the entries
                 .to_string())
         }
     }
@@ -816,7 +816,7 @@ pub mod more_block {
                 .try_fold(String::new(), |ac, i| {
                     Ok(format!("{}\n{}", ac, i.reconstruct().unwrap() /* this will never error */))
                 })?
-                .trim()
+                .trim_matches('\n') // spaces belong to the entries
                 .to_string())
         }
     }
-- 
2.43.0


From 27d23b41d2b113375e741f6953186d724a69016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:09 +0000
Subject: [PATCH 24/27] fix: give the line of the file in the errors of the
 logic file

---
 src/parser/logic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index b1fcb51..ee529c7 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -8,6 +8,7 @@ use crate::parser::logic::event::EventPoolParseError;
 use crate::parser::logic::list_variable::ListVariablePoolParseError;
 use crate::parser::logic::more_block::MoreBlockPoolParseError;
 use crate::parser::logic::variable::VariablePoolParseError;
+use crate::util::CountingIterator;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub struct Logic {
@@ -22,18 +23,19 @@ impl Parsable for Logic {
     type ReconstructionError = LogicReconstructionError;
 
     fn parse(logic: &str) -> Result<Logic, Self::ParseError> {
-        let mut lines = logic.split("\n");
+        let mut lines = CountingIterator::new(logic.split("\n"));
         let mut screens = LinkedHashMap::<String, ScreenLogic>::new();
-        let mut line_counter = 0u32;
 
         loop {
             let line = lines.next();
             if line.is_none() { break; }
             let line = line.unwrap();
 
+            // the index of the line this section starts at
+            let line_counter = lines.get_count() - 1;
+
             let header = if let Some(header) = line.strip_prefix("@") { header } else {
                 // todo: warning: skipping line {} because it doesn't resemble a header
-                line_counter += 1;
                 continue;
             };
 
@@ -156,8 +158,6 @@ impl Parsable for Logic {
                     .block_containers
                     .insert(container_name.to_owned(), blocks);
             }
-
-            line_counter += 1;
         }
 
         Ok(Logic { screens })
-- 
2.43.0


From dbfaa9f6b6f99cf81d955f4d9ae46e3f82e91aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:17 +0000
Subject: [PATCH 25/27] fix: count the lines of the items in the errors of the
 library file

---
 src/parser/library.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/library.rs b/src/parser/library.rs
index 3583285..0b20766 100644
--- a/src/parser/library.rs
+++ b/src/parser/library.rs
@@ -36,7 +36,10 @@ impl Parsable for Library {
                         source: err,
                         header: $header.to_string(),
                         line: line_count
-                    })?)
+                    })?);
+
+                    // the line of the item is also taken
+                    line_count += 1;
                 }
             }
         }
-- 
2.43.0


From 8ee12ce35e0fea818ade7b8670061778de6d1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:17 +0000
Subject: [PATCH 26/27] fix: give the line of the fab in the error of a fab

---
 src/parser/view.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 78d6f50..75162c5 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -46,20 +46,21 @@ impl Parsable for View {
                 layouts.insert(screen_name.to_string(), screen);
 
             } else if *container_type == "xml_fab" {
-                let fab_view =
-                    AndroidView::parse(
-                        lines.next()
-                            .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
-                                screen_name: screen_name.to_string(),
-                                line: lines.get_count()
-                            })?
-                    ).map_err(|err| ViewParseError::FabParseError {
+                let fab_line = lines.next()
+                    .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
                         screen_name: screen_name.to_string(),
-                        line: lines.get_count(),
-                        content: line.to_string(),
-                        source: err
+                        line: lines.get_count()
                     })?;
 
+                let fab_view =
+                    AndroidView::parse(fab_line)
+                        .map_err(|err| ViewParseError::FabParseError {
+                            screen_name: screen_name.to_string(),
+                            line: lines.get_count(),
+                            content: fab_line.to_string(),
+                            source: err
+                        })?;
+
                 fabs.insert(screen_name.to_string(), fab_view);
             }
         }
-- 
2.43.0


From 7dc4ec363d068f732859fe358f991ecf9345b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:27 +0000
Subject: [PATCH 27/27] fix: name the id in the error of a taken resource id

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 298a801..31a594b 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -226,7 +226,7 @@ impl Resources {
 
 #[derive(Error, Debug)]
 pub enum ResourceAdditionError {
-    #[error("resource id `{}` is already taken", 0.0)]
+    #[error("resource id `{}` is already taken", .id.0)]
     IdTaken { id: ResourceId },
 
     #[error("file `{path:?}` does not exist")]
-- 
2.43.0

