From f8cc77615b46a259215f4ce4604c7bac14b02a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:27 +0000
Subject: [PATCH 01/26] fix: report a failed write of a primitive value

---
 yaserde/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 6c86ac9..06b0f61 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,8 +177,7 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        let _ret = writer.write(event);
-        Ok(())
+        writer.write(event).map_err(|e| e.to_string())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From 539e9f98f8aa4faa6c34214e6b05e848b55e8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:29 +0000
Subject: [PATCH 02/26] fix: report a read error inside a primitive element
 instead of decoding an empty value

---
 yaserde/src/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde/src/primitives.rs b/yaserde/src/primitives.rs
index 0d4107f..fdc2f4a 100644
--- a/yaserde/src/primitives.rs
+++ b/yaserde/src/primitives.rs
@@ -43,7 +43,7 @@ pub fn deserialize_primitives<S, R: Read>(
     return Err("Start element not found".to_string());
   }
 
-  if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
+  if let xml::reader::XmlEvent::Characters(ref text) = reader.peek()? {
     deserialize_function(text)
   } else {
     deserialize_function("")
-- 
2.43.0


From b5c7cc95314f316aa30c5e71ef4f2e579a5cbdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:31 +0000
Subject: [PATCH 03/26] fix: reject an unparsable enum payload instead of
 panicking

---
 yaserde_derive/src/de/expand_enum.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3134a07..b38b508 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -187,7 +187,7 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
         make_visitor(
           &visitor,
           &field_type,
-          &quote! { ::std::result::Result::Ok(#field_type::from_str(v).unwrap()) },
+          &quote! { #field_type::from_str(v).map_err(|e| e.to_string()) },
         )
       };
 
@@ -257,9 +257,8 @@ fn build_unnamed_visitor_calls(
             }
           });
 
-          if let ::std::result::Result::Ok(value) = result {
-            #action
-          }
+          let value = result?;
+          #action
         })
       };
 
-- 
2.43.0


From 51650cb923fc5ed566e092880a947f0aca034d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:35 +0000
Subject: [PATCH 04/26] fix: read an empty element of a string field as the
 empty string

---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fca7486..794853d 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -507,6 +507,10 @@ fn build_call_visitor(
       #namespaces_matching
 
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
+        if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
+          return visitor.#visitor("");
+        }
+
         if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
           let val = visitor.#visitor(&s);
           let _event = reader.next_event()?;
-- 
2.43.0


From 4d0480bfed0f612158e7190cc9aadde5089c8139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:38 +0000
Subject: [PATCH 05/26] fix: consume the whole element of a field before
 looking at its siblings

---
 yaserde_derive/src/de/expand_struct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 794853d..95fe5a7 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -427,6 +427,7 @@ pub fn parse(
                 let event = reader.next_event()?;
                 #write_unused
               } else {
+                let element_depth = reader.depth();
 
                 match (namespace.as_str(), name.local_name.as_str()) {
                   #call_visitors
@@ -441,6 +442,11 @@ pub fn parse(
                     }
                   }
                 }
+
+                // Consume what is left of the child element, it doesn't belong to this struct
+                while depth > 0 && reader.depth() > element_depth {
+                  reader.next_event()?;
+                }
               }
               if depth == 0 { // Look for attributes only at element start
                 #attributes_loading
-- 
2.43.0


From 909adb9b119417d2ec63ae623c94d4bd5dbf984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:41 +0000
Subject: [PATCH 06/26] fix: honour skip_serializing on attribute fields

---
 yaserde_derive/src/common/field.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 06f650c..4cb355a 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -181,10 +181,11 @@ impl YaSerdeField {
       .map(|builder| quote!(let yaserde_inner = #builder;))
       .unwrap_or_default();
 
+    let skip_serializing = self.is_skip_serializing();
     let skip_if = self
       .get_skip_serializing_if_function()
-      .map(|skip_if_function| quote!(!self.#skip_if_function(&self.#label)))
-      .unwrap_or(quote!(true));
+      .map(|skip_if_function| quote!(!#skip_serializing && !self.#skip_if_function(&self.#label)))
+      .unwrap_or(quote!(!#skip_serializing));
 
     self
       .get_default_function()
-- 
2.43.0


From b0c950f080124bfb3125eea1488cb08a8dc99127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:44 +0000
Subject: [PATCH 07/26] fix: parse HexBinaryYaSerde values as the hexadecimal
 they are written in

---
 yaserde_derive/src/primitives.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 386bf28..1c5f2d2 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -71,8 +71,10 @@ pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
 
       fn from_str(s: &::std::primitive::str) -> ::std::result::Result<Self, Self::Err> {
         Self::from_bits(
-          s.parse()
-              .map_err(|_| String::from("Failed to parse Bitflag integer"))?,
+          u128::from_str_radix(s, 16)
+              .ok()
+              .and_then(|bits| ::std::convert::TryInto::try_into(bits).ok())
+              .ok_or(String::from("Failed to parse Bitflag integer"))?,
       )
       .ok_or(String::from("Unknown bits were set in Bitflag"))
       }
-- 
2.43.0


From 13877f9bb18ae410fbbd44ac95af3f9d934a36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:47 +0000
Subject: [PATCH 08/26] fix: name the element of a raw identifier field without
 the r# prefix

---
 yaserde_derive/src/common/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 4cb355a..0fe4344 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -61,7 +61,7 @@ impl YaSerdeField {
       .attributes
       .rename
       .clone()
-      .unwrap_or_else(|| self.label().as_ref().unwrap().to_string())
+      .unwrap_or_else(|| self.label().as_ref().unwrap().unraw().to_string())
   }
 
   pub fn renamed_label(&self, root_attributes: &YaSerdeAttribute) -> String {
-- 
2.43.0


From 82381689a182877e20442bca0faaf88be8d82949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:51 +0000
Subject: [PATCH 09/26] fix: don't loop forever when the document ends inside a
 struct

---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 95fe5a7..706ed7f 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -466,6 +466,10 @@ pub fn parse(
               if #flatten {
                 break;
               }
+
+              return ::std::result::Result::Err(
+                ::std::format!("End of document, missing some content ?"),
+              );
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
               #set_text
-- 
2.43.0


From 51220028d8161043a727110a41a6fdf5a917d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:13 +0000
Subject: [PATCH 10/26] fix: don't mistake the element of a nested struct for
 one of its fields of the same name

---
 yaserde_derive/src/de/expand_struct.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 706ed7f..8cfb12e 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -421,9 +421,11 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && name.local_name == #root && namespace.as_str() == #root_namespace {
+              let is_root = name.local_name == #root && namespace.as_str() == #root_namespace;
+              if depth == 0 && (is_root || !#flatten) {
                 // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
-                // want to prematurely match the child element below.
+                // want to prematurely match the child element below. The element of a field isn't named after its struct,
+                // only a flattened struct has no element of its own.
                 let event = reader.next_event()?;
                 #write_unused
               } else {
-- 
2.43.0


From 2111e8aa7683a7959409ea6c9db28ba23f814977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:22 +0000
Subject: [PATCH 11/26] fix: check the root namespace of an enum only on the
 root element

---
 yaserde_derive/src/de/expand_enum.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index b38b508..3386d88 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -56,7 +56,9 @@ pub fn parse(
         let start_depth = reader.depth();
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
-        #namespaces_matching
+        if reader.depth() == 0 {
+          #namespaces_matching
+        }
 
         #[allow(unused_assignments, unused_mut)]
         let mut enum_value = ::std::option::Option::None;
-- 
2.43.0


From 3e7823c1b8282b47bbce3260cc97f5616fefeafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:18 +0000
Subject: [PATCH 12/26] fix: read the text content of an empty element as the
 empty string

---
 yaserde_derive/src/de/expand_struct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 8cfb12e..102decc 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -360,6 +360,9 @@ pub fn parse(
         _ => {
           if let Some(default_function) = field.get_default_function() {
             quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }
+          } else if field.is_text_content() {
+            // An element without any text holds the empty string
+            quote! { #label: #value_label.unwrap_or_default(), }
           } else {
             let error = format!(
               "{} is a required field of {}",
-- 
2.43.0


From 0a0e0f044a850463afdac629d62627dc2d2b4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:12 +0000
Subject: [PATCH 13/26] fix: ignore the content of unknown elements inside an
 enum

---
 yaserde_derive/src/de/expand_enum.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3386d88..5f68489 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -71,7 +71,13 @@ pub fn parse(
               match #element_name {
                 #match_to_enum
                 _named_element => {
-                  let _root = reader.next_event();
+                  let is_root = reader.depth() == start_depth;
+                  reader.next_event()?;
+
+                  if !is_root {
+                    // An unknown element isn't a variant, whatever it contains
+                    reader.skip_element(|_| ())?;
+                  }
                 }
               }
 
-- 
2.43.0


From cf9a6b63553ebccc47242553aacc1f02633b47fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 14/26] fix: write attributes that hold a list

---
 yaserde_derive/src/ser/expand_struct.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 2a4507b..409fd4a 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -115,9 +115,28 @@ pub fn serialize(
               struct_start_event.attr(#label_name, &yaserde_inner)
             }),
           ),
-          Field::FieldVec { .. } => {
-            // TODO
-            quote!()
+          Field::FieldVec { data_type } => {
+            let item = match *data_type {
+              Field::FieldStruct { .. } => quote!(::yaserde::ser::to_string_content(yaserde_item)?),
+              _ => quote!(yaserde_item.to_string()),
+            };
+
+            field.ser_wrap_default_attribute(
+              Some(quote!({
+                let mut yaserde_items = ::std::vec::Vec::<::std::string::String>::new();
+                for yaserde_item in self.#label.iter() {
+                  yaserde_items.push(#item);
+                }
+                yaserde_items.join(" ")
+              })),
+              quote!({
+                if self.#label.is_empty() {
+                  struct_start_event
+                } else {
+                  struct_start_event.attr(#label_name, &yaserde_inner)
+                }
+              }),
+            )
           }
         }
       } else {
-- 
2.43.0


From d9471029ac6f778958eb2244cac9ad3de8ebadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 15/26] fix: split CDATA sections around their end marker

---
 yaserde_derive/src/ser/expand_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 409fd4a..cfdaad9 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -185,7 +185,9 @@ pub fn serialize(
             #conditions {
               let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
               writer.write(start_event).map_err(|e| e.to_string())?;
-              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&self.#label);
+              // A CDATA section can't hold its own end, split it there
+              let yaserde_value = self.#label.replace("]]>", "]]]]><![CDATA[>");
+              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&yaserde_value);
               writer.write(data).map_err(|e| e.to_string())?;
               let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
               writer.write(end_event).map_err(|e| e.to_string())?;
-- 
2.43.0


From f87f7de7408ba6938db803d081fee9167bf77942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 16/26] fix: accept a flattened part inside an element of
 another namespace

---
 yaserde/src/de/mod.rs                  | 9 +++++++++
 yaserde_derive/src/de/expand_struct.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index b08b138..ff8765e 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -14,6 +14,15 @@ pub fn from_reader<R: Read, T: YaDeserialize>(reader: R) -> Result<T, String> {
   <T as YaDeserialize>::deserialize(&mut Deserializer::new_from_reader(reader))
 }
 
+/// Reads a flattened part out of the element of the struct it belongs to.
+#[doc(hidden)]
+pub fn from_flattened_str<T: YaDeserialize>(s: &str) -> Result<T, String> {
+  let mut deserializer = Deserializer::new_from_reader(s.as_bytes());
+  // It isn't the root of a document: the namespace of the outer element isn't the one it declares
+  deserializer.depth = 1;
+  <T as YaDeserialize>::deserialize(&mut deserializer)
+}
+
 pub struct Deserializer<R: Read> {
   depth: usize,
   reader: EventReader<R>,
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 102decc..d34fc8f 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -210,11 +210,11 @@ pub fn parse(
 
       match field.get_type() {
         Field::FieldStruct { .. } => quote! {
-          #value_label = Some(::yaserde::de::from_str(&unused_xml_elements)?);
+          #value_label = Some(::yaserde::de::from_flattened_str(&unused_xml_elements)?);
         },
         Field::FieldOption { data_type } => match *data_type {
           Field::FieldStruct { .. } => quote! {
-            #value_label = ::yaserde::de::from_str(&unused_xml_elements).ok();
+            #value_label = ::yaserde::de::from_flattened_str(&unused_xml_elements).ok();
           },
           field_type => unimplemented!(r#""flatten" is not implemented for {:?}"#, field_type),
         },
-- 
2.43.0


From b490898ef50aa51c6cdc260c02f46d431dcd9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 17/26] fix: end skip_element at the end of the document

---
 yaserde/src/de/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index ff8765e..39b98ef 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -102,7 +102,12 @@ impl<R: Read> Deserializer<R> {
     let depth = self.depth;
 
     while self.depth >= depth {
-      cb(&self.next_event()?);
+      let event = self.next_event()?;
+      cb(&event);
+
+      if event == XmlEvent::EndDocument {
+        break;
+      }
     }
 
     Ok(())
-- 
2.43.0


From e77964a264ffe36f12036a9c5dbbd58f065152a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 18/26] fix: write the attributes and namespaces of the value
 of an enum variant

---
 yaserde_derive/src/ser/expand_enum.rs | 34 ++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 560ed79..ddc6f20 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -261,11 +261,33 @@ fn inner_enum_inspector(
                 ::yaserde::YaSerialize::serialize(item, writer)?;
               };
 
-              let write_sub_type = |data_type| {
-                write_element(match data_type {
-                  Field::FieldString => &write_string_chars,
-                  _ => &serialize,
-                })
+              // The element of the variant is the one of its value: it has the attributes and namespaces of it
+              let write_value = quote! {
+                let (yaserde_attributes, yaserde_namespace) = ::yaserde::YaSerialize::serialize_attributes(
+                  item,
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+
+                let mut struct_start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
+                for yaserde_attribute in yaserde_attributes.iter() {
+                  struct_start_event =
+                    struct_start_event.attr(yaserde_attribute.name.borrow(), &yaserde_attribute.value);
+                }
+                for (prefix, uri) in yaserde_namespace.iter() {
+                  struct_start_event = struct_start_event.ns(prefix, uri);
+                }
+                writer.write(struct_start_event).map_err(|e| e.to_string())?;
+
+                #serialize
+
+                let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                writer.write(struct_end_event).map_err(|e| e.to_string())?;
+              };
+
+              let write_sub_type = |data_type| match data_type {
+                Field::FieldString => write_element(&write_string_chars),
+                _ => write_value.clone(),
               };
 
               let match_field = |write: &TokenStream| {
@@ -302,7 +324,7 @@ fn inner_enum_inspector(
                   if variant_attrs.flatten || field.is_flatten() {
                      match_field(&quote!{ ::yaserde::YaSerialize::serialize(item, writer)?})
                    } else {
-                     write_element(&match_field(&serialize))
+                     match_field(&write_value)
                    }
                 }
                 Field::FieldString => match_field(&write_element(&write_string_chars)),
-- 
2.43.0


From ee13ef37133d1019f9dead8a52bf0817cc39788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 19/26] fix: give an absent optional or repeated part its
 declared default

---
 yaserde_derive/src/de/expand_struct.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index d34fc8f..6505ea1 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -354,8 +354,21 @@ pub fn parse(
       let value_label = field.get_value_label();
 
       match field.get_type() {
-        Field::FieldOption { .. } | Field::FieldVec { .. } => {
-          quote! { #label: #value_label, }
+        Field::FieldOption { .. } => {
+          if let Some(default_function) = field.get_default_function() {
+            quote! { #label: #value_label.or_else(|| #default_function()), }
+          } else {
+            quote! { #label: #value_label, }
+          }
+        }
+        Field::FieldVec { .. } => {
+          if let Some(default_function) = field.get_default_function() {
+            quote! {
+              #label: if #value_label.is_empty() { #default_function() } else { #value_label },
+            }
+          } else {
+            quote! { #label: #value_label, }
+          }
         }
         _ => {
           if let Some(default_function) = field.get_default_function() {
-- 
2.43.0


From f0c23679adf23a406ee7600df050d414423cd430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:30 +0000
Subject: [PATCH 20/26] fix: apply the skip and default conditions to text
 content

---
 yaserde_derive/src/ser/expand_struct.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index cfdaad9..64866f9 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -164,21 +164,25 @@ pub fn serialize(
     .filter(|field| !field.is_attribute())
     .filter_map(|field| {
       let label = field.label();
+      let conditions = condition_generator(&label, &field);
       if field.is_text_content() {
         return match field.get_type() {
           Field::FieldOption { .. } => Some(quote!(
-            let s = self.#label.as_deref().unwrap_or_default();
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let s = self.#label.as_deref().unwrap_or_default();
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
           _ => Some(quote!(
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
         };
       }
       let label_name = field.renamed_label(root_attributes);
-      let conditions = condition_generator(&label, &field);
 
       if field.is_cdata() {
         return quote! {
-- 
2.43.0


From 2d99c5fa38966a25e86bdcc2a8231e1190fef343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:32 +0000
Subject: [PATCH 21/26] fix: write the attributes of optional flattened parts
 and skip those of skipped ones

---
 yaserde_derive/src/ser/expand_struct.rs | 31 ++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 64866f9..e4ca61a 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -140,15 +140,34 @@ pub fn serialize(
           }
         }
       } else {
+        let conditions = condition_generator(&label, &field);
+
+        let extend_attributes = |item: TokenStream| {
+          quote!(
+            let (attributes, namespace) = #item.serialize_attributes(
+              ::std::vec![],
+              ::yaserde::__xml::namespace::Namespace::empty(),
+            )?;
+            child_attributes_namespace.extend(&namespace);
+            child_attributes.extend(attributes);
+          )
+        };
+
         match field.get_type() {
           Field::FieldStruct { .. } => {
+            let extend_attributes = extend_attributes(quote!(self.#label));
+
+            quote!(#conditions { #extend_attributes })
+          }
+          Field::FieldOption { .. } => {
+            let extend_attributes = extend_attributes(quote!(item));
+
             quote!(
-              let (attributes, namespace) = self.#label.serialize_attributes(
-                ::std::vec![],
-                ::yaserde::__xml::namespace::Namespace::empty(),
-              )?;
-              child_attributes_namespace.extend(&namespace);
-              child_attributes.extend(attributes);
+              #conditions {
+                if let ::std::option::Option::Some(ref item) = self.#label {
+                  #extend_attributes
+                }
+              }
             )
           }
           _ => quote!(),
-- 
2.43.0


From 1ac6a1bca71313b071b8a81269b2d93a31c80760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:12 +0000
Subject: [PATCH 22/26] fix: read a nested struct at the start of a flattened
 document

---
 yaserde_derive/src/de/expand_struct.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 6505ea1..c6a023a 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -154,10 +154,6 @@ pub fn parse(
       let visit_struct = |struct_name: syn::Path, action: TokenStream| {
         Some(quote! {
           (#namespace, #label_name) => {
-            if depth == 0 {
-              // Don't count current struct's StartElement as substruct's StartElement
-              let _root = reader.next_event();
-            }
             if let Ok(::yaserde::__xml::reader::XmlEvent::StartElement { .. }) = reader.peek() {
               // If substruct's start element found then deserialize substruct
               let value = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader)?;
@@ -438,10 +434,10 @@ pub fn parse(
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
               let is_root = name.local_name == #root && namespace.as_str() == #root_namespace;
-              if depth == 0 && (is_root || !#flatten) {
+              if depth == 0 && (is_root || !#flatten || start_depth > 0) {
                 // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
                 // want to prematurely match the child element below. The element of a field isn't named after its struct,
-                // only a flattened struct has no element of its own.
+                // only a flattened struct that is the document has no element of its own.
                 let event = reader.next_event()?;
                 #write_unused
               } else {
-- 
2.43.0


From 3aaa332ad27ff0c1cfbcce2eb1f1eed7fa34d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:29 +0000
Subject: [PATCH 23/26] fix: write the elements of fields whose type is char,
 usize or isize

---
 yaserde/src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 06b0f61..f404868 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -175,9 +175,26 @@ macro_rules! serialize_type {
   ($type:ty) => {
     impl YaSerialize for $type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
+        // Only a field has an element of its own
+        let name = writer
+          .get_start_event_name()
+          .filter(|_| !writer.skip_start_end());
+
+        if let Some(name) = &name {
+          let event = XmlEvent::start_element(name.as_str());
+          writer.write(event).map_err(|e| e.to_string())?;
+        }
+
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        writer.write(event).map_err(|e| e.to_string())
+        writer.write(event).map_err(|e| e.to_string())?;
+
+        if name.is_some() {
+          let event = XmlEvent::end_element();
+          writer.write(event).map_err(|e| e.to_string())?;
+        }
+
+        Ok(())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From 09ef6ad2312bbc21794305b4dadd9a8435cf1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:48 +0000
Subject: [PATCH 24/26] fix: name the values written one after another by one
 serializer after themselves

---
 yaserde_derive/src/ser/implement_serializer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaserde_derive/src/ser/implement_serializer.rs b/yaserde_derive/src/ser/implement_serializer.rs
index 82c3759..980d6d8 100644
--- a/yaserde_derive/src/ser/implement_serializer.rs
+++ b/yaserde_derive/src/ser/implement_serializer.rs
@@ -26,6 +26,7 @@ pub fn implement_serializer(
         writer: &mut ::yaserde::ser::Serializer<W>,
       ) -> ::std::result::Result<(), ::std::string::String> {
         let skip = writer.skip_start_end();
+        let start_event_name = writer.get_start_event_name();
 
         if !#flatten && !skip {
           let mut child_attributes = ::std::vec![];
@@ -64,6 +65,10 @@ pub fn implement_serializer(
 
         #inner_inspector
 
+        // What is written next by the same serializer isn't named after the content of this one
+        writer.set_skip_start_end(skip);
+        writer.set_start_event_name(start_event_name);
+
         if !#flatten && !skip {
           let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
           writer.write(struct_end_event).map_err(|e| e.to_string())?;
-- 
2.43.0


From b4052540cdea8e783e577dedba1eee5c4723b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:08 +0000
Subject: [PATCH 25/26] fix: optional fields of a variant with named fields
 were not written

---
 yaserde_derive/src/ser/expand_enum.rs | 47 +++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index ddc6f20..8100e69 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -1,7 +1,10 @@
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
-use crate::ser::{implement_serializer::implement_serializer, label::build_label_name};
+use crate::ser::{
+  element::enclose_formatted_characters_for_value, implement_serializer::implement_serializer,
+  label::build_label_name,
+};
 use proc_macro2::TokenStream;
-use quote::quote;
+use quote::{format_ident, quote};
 use syn::Fields;
 use syn::Ident;
 use syn::{DataEnum, Generics};
@@ -157,6 +160,20 @@ fn inner_enum_inspector(
 
               let field_label_name = field.renamed_label(root_attributes);
 
+              let write_item = |data_type| match data_type {
+                Field::FieldStruct { .. } => quote! {
+                  writer.set_start_event_name(
+                    ::std::option::Option::Some(#field_label_name.to_string()),
+                  );
+                  writer.set_skip_start_end(false);
+                  ::yaserde::YaSerialize::serialize(item, writer)?;
+                },
+                _ => enclose_formatted_characters_for_value(
+                  &format_ident!("item"),
+                  field_label_name.clone(),
+                ),
+              };
+
               match field.get_type() {
                 Field::FieldString
                 | Field::FieldBool
@@ -214,7 +231,31 @@ fn inner_enum_inspector(
                     _ => {}
                   }
                 }),
-                Field::FieldOption { .. } => None,
+                Field::FieldOption { data_type } => {
+                  let write = match *data_type {
+                    Field::FieldVec { data_type } => {
+                      let write = write_item(*data_type);
+
+                      quote! {
+                        for item in item {
+                          #write
+                        }
+                      }
+                    }
+                    data_type => write_item(data_type),
+                  };
+
+                  Some(quote! {
+                    match self {
+                      &#name::#label { ref #field_label, .. } => {
+                        if let ::std::option::Option::Some(item) = #field_label {
+                          #write
+                        }
+                      },
+                      _ => {}
+                    }
+                  })
+                }
               }
             })
             .collect();
-- 
2.43.0


From 44977b19103ab4590c82f8413bd54137e4621d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:06 +0000
Subject: [PATCH 26/26] fix: skip_serializing and skip_serializing_if were
 ignored on the fields of a variant with named fields

---
 yaserde_derive/src/ser/expand_enum.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 8100e69..83e0840 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -147,7 +147,7 @@ fn inner_enum_inspector(
             .named
             .iter()
             .map(|field| YaSerdeField::new(field.clone()))
-            .filter(|field| !field.is_attribute())
+            .filter(|field| !field.is_attribute() && !field.is_skip_serializing())
             .filter_map(|field| {
               let field_label = field.label();
 
@@ -174,7 +174,7 @@ fn inner_enum_inspector(
                 ),
               };
 
-              match field.get_type() {
+              let write: Option<TokenStream> = match field.get_type() {
                 Field::FieldString
                 | Field::FieldBool
                 | Field::FieldU8
@@ -256,6 +256,18 @@ fn inner_enum_inspector(
                     }
                   })
                 }
+              };
+
+              match (write, field.get_skip_serializing_if_function()) {
+                (Some(write), Some(skip_if_function)) => Some(quote! {
+                  match self {
+                    &#name::#label { ref #field_label, .. } if !self.#skip_if_function(#field_label) => {
+                      #write
+                    },
+                    _ => {}
+                  }
+                }),
+                (write, _) => write,
               }
             })
             .collect();
-- 
2.43.0

