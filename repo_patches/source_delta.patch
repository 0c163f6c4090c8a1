From a2d7a33f48182e15a7c8a9104697bbca9770ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:15 +0000
Subject: [PATCH 01/36] fix: report errors found while reading entities and
 objects

EntityIter and ObjectIter mapped Err to None, so a malformed entity or object
silently ended the section and the rest of it was dropped.
---
 src/drawing.rs     |  1 +
 src/dxb_reader.rs  |  2 +-
 src/entity_iter.rs | 50 ++++++++++++++++++++++------------------------
 src/object_iter.rs | 10 ++++------
 4 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index a41e17b..6f7e21b 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1079,6 +1079,7 @@ impl Drawing {
     fn read_objects(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
         let iter = put_back(ObjectIter { iter });
         for o in iter {
+            let o = o?;
             if o.common.handle.is_empty() {
                 self.add_object(o);
             } else {
diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 8acfd35..c50387c 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -156,7 +156,7 @@ impl<T: Read> DxbReader<T> {
         }
 
         let mut gathered_entities = vec![];
-        collect_entities(&mut entities.into_iter(), &mut gathered_entities)?;
+        collect_entities(&mut entities.into_iter().map(Ok), &mut gathered_entities)?;
         let mut drawing = Drawing::new();
         drawing.clear();
         match block_base {
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index a038f93..c272aea 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -10,13 +10,10 @@ pub(crate) struct EntityIter<'a> {
 }
 
 impl Iterator for EntityIter<'_> {
-    type Item = Entity;
+    type Item = DxfResult<Entity>;
 
-    fn next(&mut self) -> Option<Entity> {
-        match Entity::read(self.iter) {
-            Ok(Some(e)) => Some(e),
-            Ok(None) | Err(_) => None,
-        }
+    fn next(&mut self) -> Option<DxfResult<Entity>> {
+        Entity::read(self.iter).transpose()
     }
 }
 
@@ -28,17 +25,17 @@ impl EntityIter<'_> {
 
 pub(crate) fn collect_entities<I>(iter: &mut I, entities: &mut Vec<Entity>) -> DxfResult<()>
 where
-    I: Iterator<Item = Entity>,
+    I: Iterator<Item = DxfResult<Entity>>,
 {
     fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<()>
     where
-        I: Iterator<Item = Entity>,
+        I: Iterator<Item = DxfResult<Entity>>,
     {
         match iter.next() {
-            Some(Entity {
+            Some(Ok(Entity {
                 specific: EntityType::Seqend(_),
                 ..
-            }) => (),
+            })) => (),
             Some(ent) => {
                 iter.put_back(ent);
             }
@@ -50,13 +47,13 @@ where
 
     fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
     where
-        I: Iterator<Item = Entity>,
+        I: Iterator<Item = DxfResult<Entity>>,
     {
         let m_text = match iter.next() {
-            Some(Entity {
+            Some(Ok(Entity {
                 specific: EntityType::MText(m),
                 ..
-            }) => Some(m),
+            })) => Some(m),
             Some(ent) => {
                 iter.put_back(ent);
                 None
@@ -70,10 +67,10 @@ where
     let mut iter = put_back(iter);
     loop {
         match iter.next() {
-            Some(Entity {
+            Some(Ok(Entity {
                 ref common,
                 specific: EntityType::Attribute(ref att),
-            }) => {
+            })) => {
                 let mut att = att.clone(); // 27 fields
                 match mtext(&mut iter) {
                     Ok(Some(m_text)) => att.m_text = m_text,
@@ -86,10 +83,10 @@ where
                     specific: EntityType::Attribute(att),
                 });
             }
-            Some(Entity {
+            Some(Ok(Entity {
                 ref common,
                 specific: EntityType::AttributeDefinition(ref att),
-            }) => {
+            })) => {
                 let mut att = att.clone(); // 27 fields
                 match mtext(&mut iter) {
                     Ok(Some(m_text)) => att.m_text = m_text,
@@ -102,17 +99,17 @@ where
                     specific: EntityType::AttributeDefinition(att),
                 });
             }
-            Some(Entity {
+            Some(Ok(Entity {
                 ref common,
                 specific: EntityType::Insert(ref ins),
-            }) if ins.__has_attributes => {
+            })) if ins.__has_attributes => {
                 let mut ins = ins.clone(); // 12 fields
                 loop {
                     match iter.next() {
-                        Some(Entity {
+                        Some(Ok(Entity {
                             specific: EntityType::Attribute(att),
                             ..
-                        }) => ins
+                        })) => ins
                             .__attributes_and_handles
                             .push((att, AUTO_REPLACE_HANDLE)),
                         Some(ent) => {
@@ -132,17 +129,17 @@ where
                     specific: EntityType::Insert(ins),
                 });
             }
-            Some(Entity {
+            Some(Ok(Entity {
                 common,
                 specific: EntityType::Polyline(poly),
-            }) => {
+            })) => {
                 let mut poly = poly.clone(); // 13 fields
                 loop {
                     match iter.next() {
-                        Some(Entity {
+                        Some(Ok(Entity {
                             specific: EntityType::Vertex(vertex),
                             ..
-                        }) => poly
+                        })) => poly
                             .__vertices_and_handles
                             .push((vertex, AUTO_REPLACE_HANDLE)),
                         Some(ent) => {
@@ -162,7 +159,8 @@ where
                     specific: EntityType::Polyline(poly),
                 });
             }
-            Some(entity) => entities.push(entity),
+            Some(Ok(entity)) => entities.push(entity),
+            Some(Err(e)) => return Err(e),
             None => break,
         }
     }
diff --git a/src/object_iter.rs b/src/object_iter.rs
index 007c6c9..ffc1a76 100644
--- a/src/object_iter.rs
+++ b/src/object_iter.rs
@@ -1,17 +1,15 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::objects::Object;
+use crate::DxfResult;
 
 pub(crate) struct ObjectIter<'a> {
     pub iter: &'a mut CodePairPutBack,
 }
 
 impl Iterator for ObjectIter<'_> {
-    type Item = Object;
+    type Item = DxfResult<Object>;
 
-    fn next(&mut self) -> Option<Object> {
-        match Object::read(self.iter) {
-            Ok(Some(o)) => Some(o),
-            Ok(None) | Err(_) => None,
-        }
+    fn next(&mut self) -> Option<DxfResult<Object>> {
+        Object::read(self.iter).transpose()
     }
 }
-- 
2.43.0


From 02efde7e720b1aba89e74e028221ad5acb80cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:23 +0000
Subject: [PATCH 02/36] fix: report a truncated scale factor in a DXB file

read_f replaced any read error by 0.0.
---
 src/dxb_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index c50387c..1d5acc2 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -296,9 +296,9 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_f(&mut self) -> DxfResult<f64> {
-        let value = read_f64(&mut self.reader);
+        let value = read_f64(&mut self.reader)?;
         self.advance_offset(8);
-        Ok(value.or::<f64>(Ok(0.0)).unwrap())
+        Ok(value)
     }
     fn read_n(&mut self) -> DxfResult<f64> {
         if self.is_integer_mode {
-- 
2.43.0


From c2c12fba4c22899b4b2832f29932edcc0d5eb54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 03/36] fix: flush buffered output before reporting a file as
 saved

The BufWriter was only flushed by its destructor, which discards I/O errors.
---
 src/drawing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 6f7e21b..a59efb5 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -212,7 +212,9 @@ impl Drawing {
     fn save_file_internal(&self, path: impl AsRef<Path>, as_ascii: bool) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut writer = BufWriter::new(file);
-        self.save_internal(&mut writer, as_ascii)
+        self.save_internal(&mut writer, as_ascii)?;
+        writer.flush()?;
+        Ok(())
     }
     /// Writes a `Drawing` as DXB to anything that implements the `Write` trait.
     pub fn save_dxb<T>(&self, writer: &mut T) -> DxfResult<()>
@@ -226,7 +228,9 @@ impl Drawing {
     pub fn save_file_dxb(&self, path: impl AsRef<Path>) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut buf_writer = BufWriter::new(file);
-        self.save_dxb(&mut buf_writer)
+        self.save_dxb(&mut buf_writer)?;
+        buf_writer.flush()?;
+        Ok(())
     }
     /// Returns an iterator for all app ids.
     pub fn app_ids(&self) -> impl Iterator<Item = &AppId> {
-- 
2.43.0


From 6de721b942682ada8ed281e77130df5e7db18bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:52 +0000
Subject: [PATCH 04/36] fix: write MLINE vertices, segment and miter directions
 with the codes they are read from

---
 spec/EntitiesSpec.xml | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index 9f17b24..a74ec6b 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
-        <WriteSpecificValue Code="10" Value="item.x" />
-        <WriteSpecificValue Code="20" Value="item.y" />
-        <WriteSpecificValue Code="30" Value="item.z" />
-      </Foreach>
-      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
+      <Foreach Field="ent.miter_directions">
+        <WriteSpecificValue Code="13" Value="item.x" />
+        <WriteSpecificValue Code="23" Value="item.y" />
+        <WriteSpecificValue Code="33" Value="item.z" />
+      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
-- 
2.43.0


From 5cf35f2b9f05117119969e1126ad0f2b85405dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:52 +0000
Subject: [PATCH 05/36] fix: write the y coordinate of underlay boundary points
 with the code it is read from

---
 spec/EntitiesSpec.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a74ec6b..a4ce067 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
-- 
2.43.0


From 72a950ff183b608208f4e03908bd6f930742d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:52 +0000
Subject: [PATCH 06/36] fix: read the y coordinate of WIPEOUT clipping vertices
 from the code it is written with

---
 spec/EntitiesSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a4ce067..f87ecca 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
-- 
2.43.0


From 1fce17f31ae2d8030f4d1126fa4a679887c9b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:37 +0000
Subject: [PATCH 07/36] fix: a table cell style at the end of a table style no
 longer consumes the start of the next object

---
 src/table_cell_style.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index 7136138..9d1a242 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -43,7 +43,11 @@ impl TableCellStyle {
         let mut style = TableCellStyle::default();
         loop {
             let pair = match iter.next() {
-                Some(Ok(CodePair { code: 0, .. })) => return Ok(Some(style)),
+                Some(Ok(pair @ CodePair { code: 0, .. })) => {
+                    // the next object starts here
+                    iter.put_back(Ok(pair));
+                    return Ok(Some(style));
+                }
                 Some(Ok(pair)) => pair,
                 Some(Err(e)) => return Err(e),
                 None => return Ok(Some(style)),
-- 
2.43.0


From 60c74113b190ddf9a5d947ddc91f377ffa415cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:01 +0000
Subject: [PATCH 08/36] fix: section type settings end at their end marker and
 do not loop on unrelated pairs

---
 src/section_type_settings.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index 0081773..82d52e5 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -30,14 +30,14 @@ impl Default for SectionTypeSettings {
 // internal visibility only
 impl SectionTypeSettings {
     pub(crate) fn read(iter: &mut CodePairPutBack) -> DxfResult<Option<SectionTypeSettings>> {
-        // check the first pair and only continue if it's not 0
+        // check the first pair and only continue if it belongs to a section type settings
         match iter.next() {
-            Some(Ok(pair @ CodePair { code: 0, .. })) => {
-                iter.put_back(Ok(pair));
-                return Ok(None);
-            }
             Some(Ok(pair)) => {
+                let can_start = matches!(pair.code, 1 | 2 | 3 | 90 | 91 | 92 | 93 | 330 | 331);
                 iter.put_back(Ok(pair));
+                if !can_start {
+                    return Ok(None);
+                }
             }
             Some(Err(e)) => return Err(e),
             None => return Ok(None),
@@ -65,7 +65,7 @@ impl SectionTypeSettings {
                         ss.geometry_settings.push(gs);
                     }
                 }
-                3 => (), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
+                3 => return Ok(Some(ss)), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
                 90 => {
                     ss.section_type = pair.assert_i32()?;
                 }
-- 
2.43.0


From bd6002fa4a4a09afc5591f7a7fd2c6d41537f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:25 +0000
Subject: [PATCH 09/36] fix: write spatial filter matrices in the row-major
 order they are read in

---
 src/transformation_matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transformation_matrix.rs b/src/transformation_matrix.rs
index b4a1422..f19eb9c 100644
--- a/src/transformation_matrix.rs
+++ b/src/transformation_matrix.rs
@@ -63,8 +63,8 @@ impl TransformationMatrix {
     }
     pub(crate) fn values_row_major_4x3(&self) -> Vec<f64> {
         vec![
-            self.m11, self.m21, self.m31, self.m12, self.m22, self.m32, self.m13, self.m23,
-            self.m33, self.m14, self.m24, self.m34,
+            self.m11, self.m12, self.m13, self.m21, self.m22, self.m23, self.m31, self.m32,
+            self.m33, self.m41, self.m42, self.m43,
         ]
     }
 }
-- 
2.43.0


From 42daf3c9a5e48d84fcce2664466ab3e64964b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:50 +0000
Subject: [PATCH 10/36] fix: read the specular map file name of a material into
 its own field

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 3d7c896..cc163e5 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -698,7 +698,7 @@ impl Object {
                     }
                 }
                 4 => {
-                    mat.normal_map_file_name = pair.assert_string()?;
+                    mat.specular_map_file_name = pair.assert_string()?;
                 }
                 6 => {
                     mat.reflection_map_file_name = pair.assert_string()?;
-- 
2.43.0


From 06f46dca51ea4dbec50b34649a2ad1de2b1c1a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:00 +0000
Subject: [PATCH 11/36] fix: read the lights of a light list instead of
 overwriting its version and handle

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index cc163e5..ba39a76 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -650,7 +650,7 @@ impl Object {
                         // count of lights is ignored since it's implicitly set by reading the values
                     } else {
                         ll.version = pair.assert_i32()?;
-                        read_version_number = false;
+                        read_version_number = true;
                     }
                 }
                 _ => {
-- 
2.43.0


From 259ae0bb011de4985fbead5ade124998e96f303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:00 +0000
Subject: [PATCH 12/36] fix: write the hard owner flag of dictionaries that
 have it set

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index ba39a76..918b44e 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1542,7 +1542,7 @@ impl Object {
             }
             ObjectType::Dictionary(ref dict) => {
                 pairs.push(CodePair::new_str(100, "AcDbDictionary"));
-                if version >= AcadVersion::R2000 && !dict.is_hard_owner {
+                if version >= AcadVersion::R2000 && dict.is_hard_owner {
                     pairs.push(CodePair::new_i16(280, as_i16(dict.is_hard_owner)));
                 }
                 if version >= AcadVersion::R2000 {
-- 
2.43.0


From ad675f8af148619ccbe345b5619d824ea73b5e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:00 +0000
Subject: [PATCH 13/36] fix: keep the last element of a spatial filter's affine
 matrices

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 918b44e..65de2ba 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1232,7 +1232,7 @@ impl Object {
                                 matrix_list[9],
                                 matrix_list[10],
                                 matrix_list[11],
-                                0.0,
+                                1.0,
                             ]);
                             matrix_list.clear();
                             if !set_inverse_matrix {
-- 
2.43.0


From cd0623ae70f300e1ce38128aea59ac9b127d2df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:00 +0000
Subject: [PATCH 14/36] fix: complete materials and mline styles after reading
 them

---
 src/object.rs                | 3 +--
 src/transformation_matrix.rs | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 65de2ba..c453dfd 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -121,10 +121,9 @@ impl Object {
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
                                 }
-
-                                obj.post_parse()?;
                             }
 
+                            obj.post_parse()?;
                             return Ok(Some(obj));
                         }
                         None => {
diff --git a/src/transformation_matrix.rs b/src/transformation_matrix.rs
index f19eb9c..89bddab 100644
--- a/src/transformation_matrix.rs
+++ b/src/transformation_matrix.rs
@@ -74,6 +74,8 @@ impl TransformationMatrix {
     fn value_or_default(values: &[f64], index: usize) -> f64 {
         if values.len() > index {
             values[index]
+        } else if index % 5 == 0 {
+            1.0 // missing values keep the identity matrix
         } else {
             0.0
         }
-- 
2.43.0


From 69ffb6f33a2e3dde18b742bbde8efdcc95714b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:03 +0000
Subject: [PATCH 15/36] fix: read the duplicate record handling and x data of
 an XRECORD back from where they are written

---
 src/object.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index c453dfd..64b28d4 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1437,9 +1437,15 @@ impl Object {
         iter: &mut CodePairPutBack,
     ) -> DxfResult<bool> {
         let mut reading_data = false;
+        let mut read_subclass_marker = false;
         loop {
             let pair = next_pair!(iter);
-            if reading_data {
+            let follows_subclass_marker = read_subclass_marker;
+            read_subclass_marker = false;
+            if reading_data && pair.code == 1001 {
+                // x data isn't part of the record's own data
+                common.apply_individual_pair(&pair, iter)?;
+            } else if reading_data && !(follows_subclass_marker && pair.code == 280) {
                 xr.data_pairs.push(pair);
             } else {
                 if pair.code == 280 {
@@ -1460,6 +1466,7 @@ impl Object {
                 match pair.code {
                     100 => {
                         reading_data = true;
+                        read_subclass_marker = true;
                         continue;
                     } // value should be "AcDbXrecord", some dxf files still need to keep the object read
                     5 | 105 => (), // these codes aren't allowed here
-- 
2.43.0


From 5d43c50f502684277fdd75dfd63b886a58648632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:59 +0000
Subject: [PATCH 16/36] fix: write the specular gloss factor of a material

---
 spec/ObjectsSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 218bce2..0869a49 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_color_factor" />
+      <WriteField Field="specular_gloss_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
-- 
2.43.0


From 644d45abc5a6394e59f741291313190d24b88492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:04 +0000
Subject: [PATCH 17/36] Revert "fix: write the specular gloss factor of a
 material"

This reverts commit 5d43c50f502684277fdd75dfd63b886a58648632.
---
 spec/ObjectsSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 0869a49..218bce2 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_gloss_factor" />
+      <WriteField Field="specular_color_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
-- 
2.43.0


From fe6e5db9109afee33dd4984680148686e250247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:04 +0000
Subject: [PATCH 18/36] Revert "fix: read the y coordinate of WIPEOUT clipping
 vertices from the code it is written with"

This reverts commit 72a950ff183b608208f4e03908bd6f930742d6ff.
---
 spec/EntitiesSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index f87ecca..a4ce067 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
-- 
2.43.0


From 949f4c6d48407fcfbd30e38e81f41849b1461ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:04 +0000
Subject: [PATCH 19/36] Revert "fix: write the y coordinate of underlay
 boundary points with the code it is read from"

This reverts commit 5cf35f2b9f05117119969e1126ad0f2b85405dfe.
---
 spec/EntitiesSpec.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a4ce067..a74ec6b 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
-- 
2.43.0


From dec8e61ecdccb3bb263e098e2bdf4930f11ae3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:04 +0000
Subject: [PATCH 20/36] Revert "fix: write MLINE vertices, segment and miter
 directions with the codes they are read from"

This reverts commit 6de721b942682ada8ed281e77130df5e7db18bd6.
---
 spec/EntitiesSpec.xml | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a74ec6b..9f17b24 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
+        <WriteSpecificValue Code="10" Value="item.x" />
+        <WriteSpecificValue Code="20" Value="item.y" />
+        <WriteSpecificValue Code="30" Value="item.z" />
+      </Foreach>
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.segment_directions">
+      <Foreach Field="ent.miter_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
-        <WriteSpecificValue Code="13" Value="item.x" />
-        <WriteSpecificValue Code="23" Value="item.y" />
-        <WriteSpecificValue Code="33" Value="item.z" />
-      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
-- 
2.43.0


From c5b0a903cb4d015c663db25a499c034c464fc2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:32 +0000
Subject: [PATCH 21/36] fix: write a block's x data inside the BLOCK record,
 where it is read from

---
 src/block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b3c92d4..5bc3f5b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -247,6 +247,10 @@ impl Block {
             pairs.push(CodePair::new_string(4, &self.description));
         }
 
+        for x in &self.x_data {
+            x.add_code_pairs(pairs, version);
+        }
+
         for e in &self.entities {
             e.add_code_pairs(pairs, version, write_handles);
         }
@@ -278,10 +282,6 @@ impl Block {
         if version >= AcadVersion::R13 {
             pairs.push(CodePair::new_str(100, "AcDbBlockEnd"));
         }
-
-        for x in &self.x_data {
-            x.add_code_pairs(pairs, version);
-        }
     }
 }
 
-- 
2.43.0


From ec584a1c74982b99a3172d7b0f56618ce70ad488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:35 +0000
Subject: [PATCH 22/36] fix: report a block that is not closed before its
 section ends instead of looping forever

---
 src/block.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index 5bc3f5b..f775ec0 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -154,6 +154,17 @@ impl Block {
                             }
                             break;
                         }
+                        CodePair {
+                            code: 0,
+                            value: CodePairValue::Str(ref s),
+                            ..
+                        } if s == "ENDSEC" => {
+                            // the section ended before the block did
+                            return Err(DxfError::UnexpectedCodePair(
+                                pair,
+                                String::from("expected 0/ENDBLK"),
+                            ));
+                        }
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-- 
2.43.0


From 91c306e7d78995aa2d6e82ea076514126217748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:22 +0000
Subject: [PATCH 23/36] fix: write an entity's x data before the entities that
 follow it (attributes, vertices, SEQEND), so that it is read back

---
 src/entity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index c2eeb9e..09e1e95 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1305,10 +1305,11 @@ impl Entity {
                 self.specific.add_code_pairs(pairs, &self.common, version);
             }
 
-            self.add_post_code_pairs(pairs, version, write_handles);
             for x in &self.common.x_data {
                 x.add_code_pairs(pairs, version);
             }
+
+            self.add_post_code_pairs(pairs, version, write_handles);
         }
     }
     fn add_custom_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) -> bool {
-- 
2.43.0


From 557eba6ef9d13506d93442b47dec3498e5497180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:22 +0000
Subject: [PATCH 24/36] fix: read the MTEXT that follows each attribute of an
 INSERT, so that the later attributes are kept

---
 src/entity_iter.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index c272aea..05060bc 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -107,11 +107,16 @@ where
                 loop {
                     match iter.next() {
                         Some(Ok(Entity {
-                            specific: EntityType::Attribute(att),
+                            specific: EntityType::Attribute(mut att),
                             ..
-                        })) => ins
-                            .__attributes_and_handles
-                            .push((att, AUTO_REPLACE_HANDLE)),
+                        })) => {
+                            if let Some(m_text) = mtext(&mut iter)? {
+                                att.m_text = m_text;
+                            }
+
+                            ins.__attributes_and_handles
+                                .push((att, AUTO_REPLACE_HANDLE));
+                        }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
-- 
2.43.0


From fccabc8750e46a1d1e2f4a157bd6e6580077d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:37 +0000
Subject: [PATCH 25/36] fix: keep the handles of vertices, attributes and
 SEQEND when a drawing is loaded

---
 src/entity_iter.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index 05060bc..1a15857 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,7 +1,7 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::DxfResult;
+use crate::{DxfResult, Handle};
 
 use itertools::{put_back, PutBack};
 
@@ -27,22 +27,30 @@ pub(crate) fn collect_entities<I>(iter: &mut I, entities: &mut Vec<Entity>) -> D
 where
     I: Iterator<Item = DxfResult<Entity>>,
 {
-    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<()>
+    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<Handle>
     where
         I: Iterator<Item = DxfResult<Entity>>,
     {
         match iter.next() {
             Some(Ok(Entity {
+                common,
                 specific: EntityType::Seqend(_),
-                ..
-            })) => (),
+            })) => return Ok(common.handle),
             Some(ent) => {
                 iter.put_back(ent);
             }
             None => (),
         }
 
-        Ok(())
+        Ok(Handle::empty())
+    }
+
+    fn child_handle(handle: Handle) -> Handle {
+        if handle.is_empty() {
+            AUTO_REPLACE_HANDLE
+        } else {
+            handle
+        }
     }
 
     fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
@@ -107,15 +115,15 @@ where
                 loop {
                     match iter.next() {
                         Some(Ok(Entity {
+                            common,
                             specific: EntityType::Attribute(mut att),
-                            ..
                         })) => {
                             if let Some(m_text) = mtext(&mut iter)? {
                                 att.m_text = m_text;
                             }
 
                             ins.__attributes_and_handles
-                                .push((att, AUTO_REPLACE_HANDLE));
+                                .push((att, child_handle(common.handle)));
                         }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
@@ -126,7 +134,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                ins.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the INSERT
                 entities.push(Entity {
@@ -142,11 +150,11 @@ where
                 loop {
                     match iter.next() {
                         Some(Ok(Entity {
+                            common,
                             specific: EntityType::Vertex(vertex),
-                            ..
                         })) => poly
                             .__vertices_and_handles
-                            .push((vertex, AUTO_REPLACE_HANDLE)),
+                            .push((vertex, child_handle(common.handle))),
                         Some(ent) => {
                             // stop gathering on any non-VERTEX
                             iter.put_back(ent);
@@ -156,7 +164,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                poly.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the POLYLINE
                 entities.push(Entity {
-- 
2.43.0


From d5e94759e9d2f00f8b783d936ed7e10f720f116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 26/36] fix: keep the handles of a block's entities when a
 drawing is loaded

---
 src/block.rs   | 5 ++---
 src/drawing.rs | 8 +++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index f775ec0..b7d666f 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -148,10 +148,9 @@ impl Block {
                             }
 
                             if current.handle.is_empty() {
-                                drawing.add_block(current);
-                            } else {
-                                drawing.add_block_no_handle_set(current);
+                                current.handle = drawing.next_handle();
                             }
+                            drawing.add_block_no_handle_set(current);
                             break;
                         }
                         CodePair {
diff --git a/src/drawing.rs b/src/drawing.rs
index a59efb5..31a5b6d 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -396,6 +396,10 @@ impl Drawing {
     /// Add a block to the `Drawing`.
     pub fn add_block(&mut self, mut block: Block) -> &Block {
         block.handle = self.next_handle();
+        for ent in &mut block.entities {
+            // replaced below
+            ent.common.handle = Handle::empty();
+        }
         self.add_block_no_handle_set(block)
     }
     /// Removes the specified `Block` from the `Drawing`.
@@ -837,7 +841,9 @@ impl Drawing {
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
-            ent.common.handle = self.next_handle();
+            if ent.common.handle.is_empty() {
+                ent.common.handle = self.next_handle();
+            }
         }
     }
     fn ensure_line_type_is_present_for_object(&mut self, obj: &Object) {
-- 
2.43.0


From 03099de6727bc9f93d1fdde66e263ee342c8ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:31 +0000
Subject: [PATCH 27/36] fix: adding a block whose block record is present no
 longer adds a second one

---
 src/drawing.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 31a5b6d..e60fcf8 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -834,10 +834,7 @@ impl Drawing {
         }
     }
     fn ensure_block_record_is_present_for_block(&mut self, block: &mut Block) {
-        self.add_block_record(BlockRecord {
-            name: String::from(&block.name),
-            ..Default::default()
-        });
+        self.ensure_block_record_is_present(&block.name);
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
-- 
2.43.0


From 223c4855a1bc396d356c517a079a34a76b9579cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:55 +0000
Subject: [PATCH 28/36] fix: keep the two words of a proxy entity's object
 drawing format apart

---
 src/entity.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 09e1e95..d27a33d 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -165,15 +165,16 @@ impl ProxyEntity {
         (self.__object_drawing_format & 0xFFFF) as i32
     }
     pub fn set_object_drawing_format_version(&mut self, version: i32) {
-        self.__object_drawing_format |= version as u32 & 0xFFFF;
+        self.__object_drawing_format =
+            (self.__object_drawing_format & 0xFFFF_0000) | (version as u32 & 0xFFFF);
     }
     // upper word
     pub fn object_maintenance_release_version(&self) -> i32 {
-        self.__object_drawing_format as i32 >> 4
+        (self.__object_drawing_format >> 16) as i32
     }
     pub fn set_object_mainenance_release_version(&mut self, version: i32) {
         self.__object_drawing_format =
-            (version << 4) as u32 + (self.__object_drawing_format & 0xFFFF);
+            ((version as u32) << 16) | (self.__object_drawing_format & 0xFFFF);
     }
 }
 
-- 
2.43.0


From fd32fdc1bb4b48a81870cd8871a173eb457539e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:04 +0000
Subject: [PATCH 29/36] fix: keep text after a backslash that doesn't start a
 unicode escape

---
 src/code_pair_value.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index a2bb187..551229a 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -201,6 +201,11 @@ pub(crate) fn un_escape_ascii_to_unicode(val: &str) -> String {
     let mut sequence_start = 0;
 
     for (i, c) in val.chars().enumerate() {
+        if in_escape_sequence && c == '\\' {
+            // what came so far isn't an escape sequence, but a new one might start here
+            in_escape_sequence = false;
+            result.push_str(&seq);
+        }
         if !in_escape_sequence {
             if c == '\\' {
                 in_escape_sequence = true;
@@ -229,6 +234,9 @@ pub(crate) fn un_escape_ascii_to_unicode(val: &str) -> String {
         }
     }
 
+    // an unfinished escape sequence is regular text
+    result.push_str(&seq);
+
     result
 }
 
-- 
2.43.0


From 7479e361e0504421151f8e64e01545a6508f4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:04 +0000
Subject: [PATCH 30/36] fix: keep characters of invalid control character
 escapes

---
 src/code_pair_value.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index 551229a..fd0f7a2 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -67,7 +67,11 @@ impl CodePairValue {
                                 '^' => 0x1E,
                                 '_' => 0x1F,
                                 ' ' => b'^',
-                                _ => c as u8, // invalid escape sequence, just keep the character
+                                _ => {
+                                    // invalid escape sequence, just keep the character
+                                    result.push(c);
+                                    continue;
+                                }
                             };
 
                             result.push(c as char);
@@ -78,6 +82,11 @@ impl CodePairValue {
                 }
             }
 
+            if do_escape {
+                // nothing follows that could be escaped
+                result.push('^');
+            }
+
             result.into()
         } else {
             val.into()
-- 
2.43.0


From 56ca118707e37ae528770d857b4c16cedb22963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:04 +0000
Subject: [PATCH 31/36] fix: read strings of binary files as the UTF-8 they are
 written as

---
 src/code_pair_iter.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index c724880..59c9f8b 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -270,17 +270,21 @@ impl<T: Read> BinaryCodePairIter<T> {
         Some(Ok(CodePair::new(code, value, self.offset)))
     }
     fn read_string_binary(&mut self) -> DxfResult<String> {
-        let mut s = String::new();
+        let mut bytes = vec![];
         loop {
             match read_u8(&mut self.reader) {
                 Some(Ok(0)) => break,
-                Some(Ok(c)) => s.push(c as char),
+                Some(Ok(c)) => bytes.push(c),
                 Some(Err(e)) => return Err(DxfError::IoError(e)),
                 None => return Err(DxfError::UnexpectedEndOfInput),
             }
         }
 
-        Ok(s)
+        // strings are written as UTF-8; anything else is taken byte by byte
+        match String::from_utf8(bytes) {
+            Ok(s) => Ok(s),
+            Err(e) => Ok(e.into_bytes().into_iter().map(char::from).collect()),
+        }
     }
 }
 
-- 
2.43.0


From 06b7faf7e3938df7adbc4be95caff46ca35ad3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:14 +0000
Subject: [PATCH 32/36] fix: write the hours of a sun study as the booleans
 their group code has, so that binary files can be read back

---
 src/object.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 64b28d4..6f98691 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -7,8 +7,8 @@ use std::ops::Add;
 use chrono::Duration;
 
 use crate::{
-    CodePair, Color, DataTableValue, DxfError, DxfResult, Point, SectionTypeSettings,
-    TableCellStyle, TransformationMatrix,
+    CodePair, CodePairValue, Color, DataTableValue, DxfError, DxfResult, Point,
+    SectionTypeSettings, TableCellStyle, TransformationMatrix,
 };
 
 use crate::code_pair_put_back::CodePairPutBack;
@@ -1619,7 +1619,8 @@ impl Object {
                 pairs.push(CodePair::new_i32(95, ss.interval_in_seconds));
                 pairs.push(CodePair::new_i16(73, ss.hours.len() as i16));
                 for v in &ss.hours {
-                    pairs.push(CodePair::new_i16(290, *v as i16));
+                    // values of code 290 are booleans in binary files
+                    pairs.push(CodePair::new(290, CodePairValue::Boolean(*v as i16), 0));
                 }
                 pairs.push(CodePair::new_string(
                     340,
-- 
2.43.0


From 541e4140d27b3c2f19a940d6d492c003d033cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:17 +0000
Subject: [PATCH 33/36] fix: write the entities of a drawing that has blocks to
 DXB files, and a block when there are no entities

---
 src/dxb_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index e84f68a..fe81dd3 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -23,7 +23,7 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0x1A)?;
         self.writer.write_u8(0x00)?;
 
-        let writing_block = drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
+        let writing_block = !drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
         if writing_block {
             // write block header
             self.write_item_type(DxbItemType::BlockBase)?;
-- 
2.43.0


From fe6f581620eeb0d91d7f199d7b7dae4b44c1a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:25 +0000
Subject: [PATCH 34/36] fix: select the number format of a DXB file before the
 block base that uses it

---
 src/dxb_writer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index fe81dd3..bfa4c3c 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -23,6 +23,10 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0x1A)?;
         self.writer.write_u8(0x00)?;
 
+        // force all numbers to be floats
+        self.write_item_type(DxbItemType::NumberMode)?;
+        self.write_w(1)?;
+
         let writing_block = !drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
         if writing_block {
             // write block header
@@ -32,10 +36,6 @@ impl<T: Write> DxbWriter<T> {
             self.write_n(block.base_point.y)?;
         }
 
-        // force all numbers to be floats
-        self.write_item_type(DxbItemType::NumberMode)?;
-        self.write_w(1)?;
-
         // write color
         let mut last_color = 0i16;
         self.write_item_type(DxbItemType::NewColor)?;
-- 
2.43.0


From f8e6833aafbeaf9563b4f9db8c675838b31e0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:54 +0000
Subject: [PATCH 35/36] fix: read dates to the second they were written with

---
 src/helper_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a0c10fe..e4ade06 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -35,8 +35,8 @@ fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
     let secs_per_day = 24i64 * 60 * 60;
     let seconds = days_since_dublin * secs_per_day as f64;
     // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
-    // so we counter the extra day and leap second here
-    ChronoDuration::seconds(seconds as i64 - secs_per_day + 1)
+    // so we counter the extra day here
+    ChronoDuration::seconds(seconds.round() as i64 - secs_per_day)
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
-- 
2.43.0


From 055683b81c50dd431db925dfb0698560ea0d5546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:20 +0000
Subject: [PATCH 36/36] fix: add missing UCSs in a fixed order

normalize() walked a HashSet, so the handles given to the UCSs the header
names (and with them the saved file) differed from run to run.
---
 src/drawing.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index e60fcf8..5528f18 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -30,7 +30,6 @@ use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
 use itertools::put_back;
-use std::collections::HashSet;
 use std::iter::Iterator;
 use std::path::Path;
 
@@ -1228,13 +1227,14 @@ impl Drawing {
     }
     fn ensure_ucs(&mut self) {
         // ensure all ucs that should exist do
-        let mut should_exist = HashSet::new();
-        should_exist.insert(self.header.ucs_definition_name.clone());
-        should_exist.insert(self.header.ucs_name.clone());
-        should_exist.insert(self.header.ortho_ucs_reference.clone());
-        should_exist.insert(self.header.paperspace_ucs_definition_name.clone());
-        should_exist.insert(self.header.paperspace_ucs_name.clone());
-        should_exist.insert(self.header.paperspace_ortho_ucs_reference.clone());
+        let should_exist = [
+            self.header.ucs_definition_name.clone(),
+            self.header.ucs_name.clone(),
+            self.header.ortho_ucs_reference.clone(),
+            self.header.paperspace_ucs_definition_name.clone(),
+            self.header.paperspace_ucs_name.clone(),
+            self.header.paperspace_ortho_ucs_reference.clone(),
+        ];
 
         for name in &should_exist {
             if !name.is_empty() {
-- 
2.43.0

