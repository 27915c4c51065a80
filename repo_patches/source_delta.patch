From a5d2a3e3e8a92a21fd9672d93f2b50965ab34770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:30 +0000
Subject: [PATCH 01/26] fix: primitive serializers report writer errors instead
 of dropping them

---
 yaserde/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 6c86ac9..06b0f61 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,8 +177,7 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        let _ret = writer.write(event);
-        Ok(())
+        writer.write(event).map_err(|e| e.to_string())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From 891ac8c10e0905c845c9c4396a6cad2904765114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:36 +0000
Subject: [PATCH 02/26] fix: struct deserialization stops with an error at the
 end of the document

---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fca7486..972bd4f 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -460,6 +460,10 @@ pub fn parse(
               if #flatten {
                 break;
               }
+
+              return ::std::result::Result::Err(
+                ::std::format!("End of document, missing some content ?"),
+              );
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
               #set_text
-- 
2.43.0


From 75084ddc645e164d9b9d2f6c823092da73d4e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:38 +0000
Subject: [PATCH 03/26] fix: primitive deserialization reports reader errors
 and stops at its own end tag

---
 yaserde/src/primitives.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/yaserde/src/primitives.rs b/yaserde/src/primitives.rs
index 0d4107f..fc20db3 100644
--- a/yaserde/src/primitives.rs
+++ b/yaserde/src/primitives.rs
@@ -37,15 +37,23 @@ pub fn deserialize_primitives<S, R: Read>(
   reader: &mut de::Deserializer<R>,
   deserialize_function: impl FnOnce(&str) -> Result<S, String>,
 ) -> Result<S, String> {
-  if let Ok(xml::reader::XmlEvent::StartElement { .. }) = reader.peek() {
+  if let xml::reader::XmlEvent::StartElement { .. } = reader.peek()? {
     reader.next_event()?;
   } else {
     return Err("Start element not found".to_string());
   }
 
-  if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-    deserialize_function(text)
+  let value = if let xml::reader::XmlEvent::Characters(ref text) = reader.peek()? {
+    let value = deserialize_function(text);
+    reader.next_event()?;
+    value
   } else {
     deserialize_function("")
+  }?;
+
+  // Leave the caller at this element's own end tag, which it consumes itself
+  match reader.peek()? {
+    xml::reader::XmlEvent::EndElement { .. } => Ok(value),
+    event => Err(format!("unexpected event {event:?}")),
   }
 }
-- 
2.43.0


From dce1febb3cc0fda8703b0bcd9f3df481d6413b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:43 +0000
Subject: [PATCH 04/26] fix: always consume a struct's own start element before
 matching its children

---
 yaserde_derive/src/de/expand_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 972bd4f..f1cdd05 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -421,7 +421,7 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && name.local_name == #root && namespace.as_str() == #root_namespace {
+              if depth == 0 && (!#flatten || (name.local_name == #root && namespace.as_str() == #root_namespace)) {
                 // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
                 // want to prematurely match the child element below.
                 let event = reader.next_event()?;
-- 
2.43.0


From 1dcf782cb843442a97356bf1f54a3459530cb923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:47 +0000
Subject: [PATCH 05/26] fix: leave a scalar element whose content fails to
 convert before resuming

---
 yaserde_derive/src/de/expand_struct.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index f1cdd05..146497f 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -510,6 +510,8 @@ fn build_call_visitor(
 
       #namespaces_matching
 
+      let outer_depth = reader.depth();
+
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
         if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
           let val = visitor.#visitor(&s);
@@ -522,6 +524,11 @@ fn build_call_visitor(
 
       if let ::std::result::Result::Ok(value) = result {
         #value_label#action
+      } else {
+        // The content was not fully consumed: leave the element before resuming
+        while reader.depth() > outer_depth {
+          reader.next_event()?;
+        }
       }
     }
   })
-- 
2.43.0


From 8878feaa1d3de40fb0438b7f579a6e9a9038feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:52 +0000
Subject: [PATCH 06/26] fix: an empty element is a scalar with empty text, not
 a missing one

---
 yaserde_derive/src/de/expand_struct.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 146497f..81b9249 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -517,6 +517,8 @@ fn build_call_visitor(
           let val = visitor.#visitor(&s);
           let _event = reader.next_event()?;
           val
+        } else if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = reader.peek()? {
+          visitor.#visitor("")
         } else {
           ::std::result::Result::Err(::std::format!("unable to parse content for {}", #label_name))
         }
-- 
2.43.0


From 5fbf40b3c2b5e77d9fa6d0e5551d616d1ef435a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:26 +0000
Subject: [PATCH 07/26] fix: unconvertible enum payloads are an error, not a
 panic or the default value

---
 yaserde_derive/src/de/expand_enum.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3134a07..6f9e01c 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -182,12 +182,22 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
 
       let simple_type_visitor = |simple_type: Field| {
         let visitor = simple_type.get_simple_type_visitor();
-        let field_type = simple_type.into();
+        let field_type: TokenStream = simple_type.into();
+
+        let map_if_bool = if field_type.to_string() == "bool" {
+          quote!(match v {
+            "1" => "true",
+            "0" => "false",
+            _ => v,
+          })
+        } else {
+          quote!(v)
+        };
 
         make_visitor(
           &visitor,
           &field_type,
-          &quote! { ::std::result::Result::Ok(#field_type::from_str(v).unwrap()) },
+          &quote! { #field_type::from_str(#map_if_bool).map_err(|e| e.to_string()) },
         )
       };
 
@@ -257,9 +267,8 @@ fn build_unnamed_visitor_calls(
             }
           });
 
-          if let ::std::result::Result::Ok(value) = result {
-            #action
-          }
+          let value = result?;
+          #action
         })
       };
 
-- 
2.43.0


From 2d16051f150a3fc2653f59c2699a85966b5f7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:39 +0000
Subject: [PATCH 08/26] fix: enum deserialization stays within its own element
 and leaves its end to the caller

---
 yaserde_derive/src/de/expand_enum.rs | 41 ++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 6f9e01c..8579c7f 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -23,6 +23,13 @@ pub fn parse(
     .filter_map(|variant| parse_variant(variant, name))
     .collect();
 
+  let match_text_to_enum: TokenStream = data_enum
+    .variants
+    .iter()
+    .filter(|variant| matches!(variant.fields, Fields::Unit))
+    .filter_map(|variant| parse_variant(variant, name))
+    .collect();
+
   let flatten = root_attributes.flatten;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
@@ -69,13 +76,16 @@ pub fn parse(
               match #element_name {
                 #match_to_enum
                 _named_element => {
-                  let _root = reader.next_event();
+                  let _root = reader.next_event()?;
+                  if reader.depth() > start_depth + 1 { // Don't skip our own element
+                    reader.skip_element(|_| {})?;
+                  }
                 }
               }
 
               if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
                 match content.as_str() {
-                  #match_to_enum
+                  #match_text_to_enum
                   _ => {}
                 }
               }
@@ -104,6 +114,17 @@ pub fn parse(
           }
         }
 
+        // Leave the caller at our own end element, whatever content was left unread
+        loop {
+          match reader.peek()?.to_owned() {
+            ::yaserde::__xml::reader::XmlEvent::EndElement { .. } if reader.depth() == start_depth + 1 => break,
+            ::yaserde::__xml::reader::XmlEvent::EndDocument => break,
+            _ => {
+              let _event = reader.next_event()?;
+            }
+          }
+        }
+
         ::yaserde::__derive_debug!("Enum {} @ {}: success", stringify!(#name), start_depth);
         ::std::result::Result::Ok(enum_value.unwrap_or(<#name as ::std::default::Default>::default()))
       }
@@ -251,7 +272,7 @@ fn build_unnamed_visitor_calls(
         Some(quote! {
           let visitor = #visitor_label{};
 
-          let result = reader.read_inner_value::<#field_type, _>(|reader| {
+          let read_content = |reader: &mut ::yaserde::de::Deserializer<R>| {
             if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
               return visitor.#visitor("");
             }
@@ -265,7 +286,15 @@ fn build_unnamed_visitor_calls(
                 ::std::format!("unable to parse content for {}", #label_name),
               )
             }
-          });
+          };
+
+          let result = if reader.depth() == start_depth {
+            // The variant is named by our own element, whose end is left to the caller
+            let _root = reader.next_event()?;
+            read_content(reader)
+          } else {
+            reader.read_inner_value::<#field_type, _>(read_content)
+          };
 
           let value = result?;
           #action
@@ -277,7 +306,9 @@ fn build_unnamed_visitor_calls(
           match <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader) {
             Ok(value) => {
               #action;
-              let _root = reader.next_event();
+              if reader.depth() > start_depth + 1 { // Leave our own end element to the caller
+                let _root = reader.next_event();
+              }
             },
             Err(msg) => {
               return Err(msg);
-- 
2.43.0


From f481732c32ad82e1dcb310e9a25bad831d3faf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:32 +0000
Subject: [PATCH 09/26] fix: skip_serializing also applies to attribute fields

---
 yaserde_derive/src/common/field.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 06f650c..a51588c 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -181,10 +181,12 @@ impl YaSerdeField {
       .map(|builder| quote!(let yaserde_inner = #builder;))
       .unwrap_or_default();
 
+    let skip_serializing = self.is_skip_serializing();
+
     let skip_if = self
       .get_skip_serializing_if_function()
-      .map(|skip_if_function| quote!(!self.#skip_if_function(&self.#label)))
-      .unwrap_or(quote!(true));
+      .map(|skip_if_function| quote!(!#skip_serializing && !self.#skip_if_function(&self.#label)))
+      .unwrap_or(quote!(!#skip_serializing));
 
     self
       .get_default_function()
-- 
2.43.0


From 5ac8ff0b9f5f7096eb5f0af2759cd27881e3783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:35 +0000
Subject: [PATCH 10/26] fix: skip conditions also apply to text fields

---
 yaserde_derive/src/ser/expand_struct.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 2a4507b..f05a3e9 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -145,21 +145,26 @@ pub fn serialize(
     .filter(|field| !field.is_attribute())
     .filter_map(|field| {
       let label = field.label();
+      let conditions = condition_generator(&label, &field);
+
       if field.is_text_content() {
         return match field.get_type() {
           Field::FieldOption { .. } => Some(quote!(
-            let s = self.#label.as_deref().unwrap_or_default();
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let s = self.#label.as_deref().unwrap_or_default();
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
           _ => Some(quote!(
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
         };
       }
       let label_name = field.renamed_label(root_attributes);
-      let conditions = condition_generator(&label, &field);
 
       if field.is_cdata() {
         return quote! {
-- 
2.43.0


From 236442831f2915ef8f14423979c34851fbd91cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:38 +0000
Subject: [PATCH 11/26] fix: skip conditions also apply to the attributes of
 flattened fields

---
 yaserde_derive/src/ser/expand_struct.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index f05a3e9..d77b624 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -123,13 +123,17 @@ pub fn serialize(
       } else {
         match field.get_type() {
           Field::FieldStruct { .. } => {
+            let conditions = condition_generator(&label, &field);
+
             quote!(
-              let (attributes, namespace) = self.#label.serialize_attributes(
-                ::std::vec![],
-                ::yaserde::__xml::namespace::Namespace::empty(),
-              )?;
-              child_attributes_namespace.extend(&namespace);
-              child_attributes.extend(attributes);
+              #conditions {
+                let (attributes, namespace) = self.#label.serialize_attributes(
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                child_attributes_namespace.extend(&namespace);
+                child_attributes.extend(attributes);
+              }
             )
           }
           _ => quote!(),
-- 
2.43.0


From 774e0ebf5371b06588a7519732a552e5abf798d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:41 +0000
Subject: [PATCH 12/26] fix: hexBinary wrappers read the radix they write

---
 yaserde_derive/src/primitives.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 386bf28..628585a 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -71,8 +71,10 @@ pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
 
       fn from_str(s: &::std::primitive::str) -> ::std::result::Result<Self, Self::Err> {
         Self::from_bits(
-          s.parse()
-              .map_err(|_| String::from("Failed to parse Bitflag integer"))?,
+          ::std::primitive::u128::from_str_radix(s, 16)
+              .ok()
+              .and_then(|bits| ::std::convert::TryInto::try_into(bits).ok())
+              .ok_or_else(|| String::from("Failed to parse Bitflag integer"))?,
       )
       .ok_or(String::from("Unknown bits were set in Bitflag"))
       }
-- 
2.43.0


From f0205657ffd13b2d9e4f08209ae3ff5ef843b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:05 +0000
Subject: [PATCH 13/26] fix: a CDATA field containing ]]> no longer ends its
 section early

---
 yaserde_derive/src/ser/expand_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index d77b624..f830199 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -175,7 +175,9 @@ pub fn serialize(
             #conditions {
               let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
               writer.write(start_event).map_err(|e| e.to_string())?;
-              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&self.#label);
+              // "]]>" would end the section early: split it over two sections
+              let content = self.#label.replace("]]>", "]]]]><![CDATA[>");
+              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&content);
               writer.write(data).map_err(|e| e.to_string())?;
               let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
               writer.write(end_event).map_err(|e| e.to_string())?;
-- 
2.43.0


From 00fcbefd3ef5b270f6cc16ae0215abe1726979c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:08 +0000
Subject: [PATCH 14/26] fix: optional flattened fields contribute their
 attributes and namespaces

---
 yaserde_derive/src/ser/expand_struct.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index f830199..04e1cbf 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -136,6 +136,22 @@ pub fn serialize(
               }
             )
           }
+          Field::FieldOption { data_type } if matches!(*data_type, Field::FieldStruct { .. }) => {
+            let conditions = condition_generator(&label, &field);
+
+            quote!(
+              #conditions {
+                if let ::std::option::Option::Some(ref item) = self.#label {
+                  let (attributes, namespace) = item.serialize_attributes(
+                    ::std::vec![],
+                    ::yaserde::__xml::namespace::Namespace::empty(),
+                  )?;
+                  child_attributes_namespace.extend(&namespace);
+                  child_attributes.extend(attributes);
+                }
+              }
+            )
+          }
           _ => quote!(),
         }
       }
-- 
2.43.0


From e34ca41d00a527bc6f4252b12df65d084791881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 15/26] fix: sequence attributes are serialized as the list
 they are read from

---
 yaserde_derive/src/ser/expand_struct.rs | 26 ++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 04e1cbf..1cc6eb9 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -115,9 +115,29 @@ pub fn serialize(
               struct_start_event.attr(#label_name, &yaserde_inner)
             }),
           ),
-          Field::FieldVec { .. } => {
-            // TODO
-            quote!()
+          Field::FieldVec { data_type } => {
+            let item = match *data_type {
+              Field::FieldOption { .. } | Field::FieldVec { .. } => unimplemented!(),
+              Field::FieldStruct { .. } => quote!(::yaserde::ser::to_string_content(yaserde_item)?),
+              _ => quote!(yaserde_item.to_string()),
+            };
+
+            field.ser_wrap_default_attribute(
+              Some(quote!({
+                let mut yaserde_list = ::std::vec::Vec::<::std::string::String>::new();
+                for yaserde_item in &self.#label {
+                  yaserde_list.push(#item);
+                }
+                yaserde_list.join(" ")
+              })),
+              quote!({
+                if self.#label.is_empty() {
+                  struct_start_event
+                } else {
+                  struct_start_event.attr(#label_name, &yaserde_inner)
+                }
+              }),
+            )
           }
         }
       } else {
-- 
2.43.0


From 992e2c50e6970d81c48f0817ed406d3a1e17d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:14 +0000
Subject: [PATCH 16/26] fix: optional and sequence fields of named enum
 variants are written as elements

---
 yaserde_derive/src/ser/expand_enum.rs | 98 +++++++++++----------------
 1 file changed, 41 insertions(+), 57 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 560ed79..e78da24 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -157,65 +157,49 @@ fn inner_enum_inspector(
 
               let field_label_name = field.renamed_label(root_attributes);
 
-              match field.get_type() {
-                Field::FieldString
-                | Field::FieldBool
-                | Field::FieldU8
-                | Field::FieldI8
-                | Field::FieldU16
-                | Field::FieldI16
-                | Field::FieldU32
-                | Field::FieldI32
-                | Field::FieldF32
-                | Field::FieldU64
-                | Field::FieldI64
-                | Field::FieldF64 => Some({
-                  quote! {
-                    match self {
-                      &#name::#label { ref #field_label, .. } => {
-                        let struct_start_event =
-                          ::yaserde::__xml::writer::XmlEvent::start_element(#field_label_name);
-                        writer.write(struct_start_event).map_err(|e| e.to_string())?;
+              let write_item = |data_type: Field| match data_type {
+                Field::FieldOption { .. } | Field::FieldVec { .. } => unimplemented!(),
+                Field::FieldStruct { .. } => quote! {
+                  writer.set_start_event_name(
+                    ::std::option::Option::Some(#field_label_name.to_string()),
+                  );
+                  writer.set_skip_start_end(false);
+                  ::yaserde::YaSerialize::serialize(item, writer)?;
+                },
+                _ => quote! {
+                  let struct_start_event =
+                    ::yaserde::__xml::writer::XmlEvent::start_element(#field_label_name);
+                  writer.write(struct_start_event).map_err(|e| e.to_string())?;
 
-                        let string_value = #field_label.to_string();
-                        let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&string_value);
-                        writer.write(data_event).map_err(|e| e.to_string())?;
+                  let string_value = item.to_string();
+                  let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&string_value);
+                  writer.write(data_event).map_err(|e| e.to_string())?;
 
-                        let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
-                        writer.write(struct_end_event).map_err(|e| e.to_string())?;
-                      },
-                      _ => {},
-                    }
-                  }
-                }),
-                Field::FieldStruct { .. } => Some(quote! {
-                  match self {
-                    &#name::#label{ref #field_label, ..} => {
-                      writer.set_start_event_name(
-                        ::std::option::Option::Some(#field_label_name.to_string()),
-                      );
-                      writer.set_skip_start_end(false);
-                      ::yaserde::YaSerialize::serialize(#field_label, writer)?;
-                    },
-                    _ => {}
-                  }
-                }),
-                Field::FieldVec { .. } => Some(quote! {
-                  match self {
-                    &#name::#label { ref #field_label, .. } => {
-                      for item in #field_label {
-                        writer.set_start_event_name(
-                          ::std::option::Option::Some(#field_label_name.to_string()),
-                        );
-                        writer.set_skip_start_end(false);
-                        ::yaserde::YaSerialize::serialize(item, writer)?;
-                      }
-                    },
-                    _ => {}
-                  }
-                }),
-                Field::FieldOption { .. } => None,
-              }
+                  let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                  writer.write(struct_end_event).map_err(|e| e.to_string())?;
+                },
+              };
+
+              let write_field = match field.get_type() {
+                Field::FieldOption { data_type } => {
+                  let write = write_item(*data_type);
+                  quote! { if let ::std::option::Option::Some(item) = item { #write } }
+                }
+                Field::FieldVec { data_type } => {
+                  let write = write_item(*data_type);
+                  quote! { for item in item { #write } }
+                }
+                data_type => write_item(data_type),
+              };
+
+              Some(quote! {
+                match self {
+                  &#name::#label { #field_label: ref item, .. } => {
+                    #write_field
+                  },
+                  _ => {},
+                }
+              })
             })
             .collect();
 
-- 
2.43.0


From 7d8c1a8f77ac0d371ab380ade302a4c0326f4793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:02 +0000
Subject: [PATCH 17/26] fix: flattened enums of flattened structs compile

---
 yaserde_derive/src/ser/expand_enum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index e78da24..e1cbc91 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -77,8 +77,8 @@ pub fn serialize(
                     match self {
                       #name::#label #destructure => {
                         let (attributes, namespace) = #var.serialize_attributes(
-                          child_attributes,
-                          child_attributes_namespace,
+                          ::std::vec![],
+                          ::yaserde::__xml::namespace::Namespace::empty(),
                         )?;
                         child_attributes_namespace.extend(&namespace);
                         child_attributes.extend(attributes);
-- 
2.43.0


From 55a75cdd5ec6fb981d82eb7ed3694b1b8158c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 18/26] fix: raw identifiers are named without their r# marker

---
 yaserde_derive/src/common/attribute.rs | 6 +++++-
 yaserde_derive/src/common/field.rs     | 2 +-
 yaserde_derive/src/ser/label.rs        | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 3532af1..68a1140 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -4,6 +4,7 @@ use serde::Deserialize;
 use serde_tokenstream::from_tokenstream;
 use std::collections::BTreeMap;
 use std::convert::TryFrom;
+use syn::ext::IdentExt;
 use syn::{Attribute, Meta};
 
 #[derive(Clone, Debug, Default, PartialEq, Deserialize)]
@@ -88,7 +89,10 @@ impl From<&Vec<Attribute>> for YaSerdeAttribute {
 
 impl YaSerdeAttribute {
   pub fn xml_element_name(&self, ident: &Ident) -> String {
-    self.rename.clone().unwrap_or_else(|| ident.to_string())
+    self
+      .rename
+      .clone()
+      .unwrap_or_else(|| ident.unraw().to_string())
   }
 
   pub fn prefix_namespace(&self) -> String {
diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index a51588c..a1f6f9c 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -61,7 +61,7 @@ impl YaSerdeField {
       .attributes
       .rename
       .clone()
-      .unwrap_or_else(|| self.label().as_ref().unwrap().to_string())
+      .unwrap_or_else(|| self.label().as_ref().unwrap().unraw().to_string())
   }
 
   pub fn renamed_label(&self, root_attributes: &YaSerdeAttribute) -> String {
diff --git a/yaserde_derive/src/ser/label.rs b/yaserde_derive/src/ser/label.rs
index 89998a5..bc3a0bb 100644
--- a/yaserde_derive/src/ser/label.rs
+++ b/yaserde_derive/src/ser/label.rs
@@ -1,5 +1,6 @@
 use crate::common::YaSerdeAttribute;
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub fn build_label_name(
   label: &Ident,
@@ -18,7 +19,7 @@ pub fn build_label_name(
   let label = field_attrs
     .rename
     .clone()
-    .unwrap_or_else(|| label.to_string());
+    .unwrap_or_else(|| label.unraw().to_string());
 
   format!("{}{}", prefix, label)
 }
-- 
2.43.0


From 51deb40f6da1587f46aa90c2f375f666da22c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 19/26] fix: fields whose names differ only in case or
 punctuation get visitors of their own

---
 yaserde_derive/src/common/field.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index a1f6f9c..5b2026b 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -109,10 +109,15 @@ impl YaSerdeField {
 
     Ident::new(
       &format!(
-        "__Visitor_{attribute}{}{}_{}",
+        "__Visitor_{attribute}{}{}_{}_{}",
         prefix,
         label.replace('.', "_").to_upper_camel_case(),
-        struct_id
+        struct_id,
+        // labels that only differ in case or punctuation share the parts above
+        self
+          .label()
+          .map(|ident| ident.unraw().to_string())
+          .unwrap_or_default()
       ),
       self.get_span(),
     )
-- 
2.43.0


From e7dde1c308ee518205fe6070788f9774e5d058d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 20/26] fix: a text field is not populated from a child element
 of its name

---
 yaserde_derive/src/de/expand_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 81b9249..2fd92a1 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -55,6 +55,9 @@ pub fn parse(
       if field.is_attribute() {
         return true;
       };
+      if field.is_text_content() {
+        return false;
+      }
       match field.get_type() {
         Field::FieldVec { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
         Field::FieldOption { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
@@ -144,7 +147,7 @@ pub fn parse(
     .fields
     .iter()
     .map(|field| YaSerdeField::new(field.clone()))
-    .filter(|field| !field.is_attribute() && !field.is_flatten())
+    .filter(|field| !field.is_attribute() && !field.is_flatten() && !field.is_text_content())
     .filter_map(|field| {
       let value_label = field.get_value_label();
       let label_name = field.renamed_label_without_namespace();
-- 
2.43.0


From b8961d7b251d7c4231e8a1eda86d429517ebab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 21/26] fix: derived wrappers do not need FromStr in the user's
 scope

---
 yaserde_derive/src/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 628585a..e0c1019 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -46,7 +46,7 @@ pub fn primitive_yaserde(input: TokenStream) -> TokenStream {
           ) -> ::std::result::Result<Self, ::std::string::String> {
               ::yaserde::primitives::deserialize_primitives(
                   reader,
-                  |s| #struct_name::from_str(s).map_err(|e| e.to_string()),
+                  |s| <#struct_name as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()),
               )
           }
       }
-- 
2.43.0


From 5388dab4772918e77dad287c3e900cffc295b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:50 +0000
Subject: [PATCH 22/26] fix: enums held in a namespaced field can be
 deserialized

---
 yaserde_derive/src/de/expand_enum.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 8579c7f..5204412 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -63,7 +63,10 @@ pub fn parse(
         let start_depth = reader.depth();
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
-        #namespaces_matching
+        // Only the root is bound to the namespace of the type: elsewhere the field holding the enum decides
+        if start_depth == 0 {
+          #namespaces_matching
+        }
 
         #[allow(unused_assignments, unused_mut)]
         let mut enum_value = ::std::option::Option::None;
-- 
2.43.0


From e069ab0da1e11456f9a9525bcc750f7803869b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:21 +0000
Subject: [PATCH 23/26] fix: flattened fields of namespaced types are read
 whatever the namespace

---
 yaserde/src/de/mod.rs                  |  9 +++++++++
 yaserde_derive/src/de/expand_struct.rs | 13 +++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index b08b138..1beb141 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -14,6 +14,15 @@ pub fn from_reader<R: Read, T: YaDeserialize>(reader: R) -> Result<T, String> {
   <T as YaDeserialize>::deserialize(&mut Deserializer::new_from_reader(reader))
 }
 
+/// Reads a flattened field from the content collected for it: the tags of the element it is part of, inside a wrapper
+/// that keeps them from being taken for the root of a document.
+#[doc(hidden)]
+pub fn from_flattened<T: YaDeserialize>(s: &str) -> Result<T, String> {
+  let mut reader = Deserializer::new_from_reader(s.as_bytes());
+  reader.next_event()?;
+  <T as YaDeserialize>::deserialize(&mut reader)
+}
+
 pub struct Deserializer<R: Read> {
   depth: usize,
   reader: EventReader<R>,
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 2fd92a1..40670f4 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -213,11 +213,11 @@ pub fn parse(
 
       match field.get_type() {
         Field::FieldStruct { .. } => quote! {
-          #value_label = Some(::yaserde::de::from_str(&unused_xml_elements)?);
+          #value_label = Some(::yaserde::de::from_flattened(&unused_xml_elements)?);
         },
         Field::FieldOption { data_type } => match *data_type {
           Field::FieldStruct { .. } => quote! {
-            #value_label = ::yaserde::de::from_str(&unused_xml_elements).ok();
+            #value_label = ::yaserde::de::from_flattened(&unused_xml_elements).ok();
           },
           field_type => unimplemented!(r#""flatten" is not implemented for {:?}"#, field_type),
         },
@@ -549,7 +549,11 @@ fn build_code_for_unused_xml_events(
   (
     Some(quote! {
       let mut buf = ::std::vec![];
-      let mut writer = ::std::option::Option::Some(::yaserde::__xml::writer::EventWriter::new(&mut buf));
+      let mut writer = ::yaserde::__xml::writer::EventWriter::new(&mut buf);
+      let mut writer = writer
+        .write(::yaserde::__xml::writer::XmlEvent::start_element("flattened"))
+        .ok()
+        .map(|()| writer);
     }),
     Some(quote! {
       if let ::std::option::Option::Some(ref mut w) = writer {
@@ -559,7 +563,8 @@ fn build_code_for_unused_xml_events(
       }
     }),
     Some(quote! {
-      if writer.is_some() {
+      let end_element = ::yaserde::__xml::writer::XmlEvent::end_element();
+      if writer.map_or(false, |mut writer| writer.write(end_element).is_ok()) {
         let unused_xml_elements = ::std::string::String::from_utf8(buf).unwrap();
         #call_flatten_visitors
       }
-- 
2.43.0


From 283ede602d3ff7ff0cc1a81d72f764f07d326c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:00 +0000
Subject: [PATCH 24/26] fix: unit variants written with a prefix are read back

---
 yaserde_derive/src/de/expand_enum.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 5204412..db17216 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -1,4 +1,5 @@
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
+use crate::ser::label::build_label_name;
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::{DataEnum, Fields, Generics, Ident};
@@ -27,7 +28,23 @@ pub fn parse(
     .variants
     .iter()
     .filter(|variant| matches!(variant.fields, Fields::Unit))
-    .filter_map(|variant| parse_variant(variant, name))
+    .map(|variant| {
+      let label = &variant.ident;
+      let attributes = YaSerdeAttribute::from(&variant.attrs);
+      let mut texts = vec![attributes.xml_element_name(label)];
+      // The serializer writes the name with its prefix
+      let label_name = build_label_name(label, &attributes, &root_attributes.default_namespace);
+      if !texts.contains(&label_name) {
+        texts.push(label_name);
+      }
+
+      quote! {
+        #(#texts)|* => {
+          enum_value = ::std::option::Option::Some(#name::#label);
+          break;
+        }
+      }
+    })
     .collect();
 
   let flatten = root_attributes.flatten;
-- 
2.43.0


From 5507cf7f5f37637aa6af1af06a24f860298dfd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:23 +0000
Subject: [PATCH 25/26] fix: a document of a flattened type may start with a
 nested element

A flattened struct accepts a document that consists of its fields alone. When the
first of them was a struct, its start tag was dropped and the value read from its
content, and the attributes of the first field were taken for the type's own.
Only a document can lack the own tag: everywhere else it is always there.
---
 yaserde_derive/src/de/expand_struct.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 40670f4..9eed1a8 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -157,10 +157,6 @@ pub fn parse(
       let visit_struct = |struct_name: syn::Path, action: TokenStream| {
         Some(quote! {
           (#namespace, #label_name) => {
-            if depth == 0 {
-              // Don't count current struct's StartElement as substruct's StartElement
-              let _root = reader.next_event();
-            }
             if let Ok(::yaserde::__xml::reader::XmlEvent::StartElement { .. }) = reader.peek() {
               // If substruct's start element found then deserialize substruct
               let value = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader)?;
@@ -424,9 +420,13 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && (!#flatten || (name.local_name == #root && namespace.as_str() == #root_namespace)) {
+              if depth == 0
+                && (!#flatten
+                  || start_depth > 0
+                  || (name.local_name == #root && namespace.as_str() == #root_namespace))
+              {
                 // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
-                // want to prematurely match the child element below.
+                // want to prematurely match the child element below. Only a document may consist of the fields alone.
                 let event = reader.next_event()?;
                 #write_unused
               } else {
@@ -445,7 +445,7 @@ pub fn parse(
                   }
                 }
               }
-              if depth == 0 { // Look for attributes only at element start
+              if depth == 0 && reader.depth() > start_depth { // Look for attributes only at element start
                 #attributes_loading
               }
               depth += 1;
-- 
2.43.0


From d8cd1b10d2c2b0936ca8300c8177ecc3d21fe16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:19 +0000
Subject: [PATCH 26/26] fix: honour every yaserde attribute of an item

Only the first #[yaserde(..)] of a type, field or variant was read: with
#[yaserde(attribute = true)] #[yaserde(rename = "x")] the name was silently ignored.
---
 yaserde_derive/src/common/attribute.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 68a1140..b0d0e9a 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -82,12 +82,32 @@ impl From<&Vec<Attribute>> for YaSerdeAttribute {
   fn from(attributes: &Vec<Attribute>) -> Self {
     attributes
       .iter()
-      .find_map(|attribute| YaSerdeAttribute::try_from(attribute).ok())
-      .unwrap_or_default()
+      .filter_map(|attribute| YaSerdeAttribute::try_from(attribute).ok())
+      .fold(YaSerdeAttribute::default(), YaSerdeAttribute::merge)
   }
 }
 
 impl YaSerdeAttribute {
+  /// Properties may be spread over several attributes of the same item
+  fn merge(mut self, other: Self) -> Self {
+    self.namespaces.extend(other.namespaces);
+
+    YaSerdeAttribute {
+      attribute: self.attribute || other.attribute,
+      default: self.default.or(other.default),
+      default_namespace: self.default_namespace.or(other.default_namespace),
+      flatten: self.flatten || other.flatten,
+      namespaces: self.namespaces,
+      prefix: self.prefix.or(other.prefix),
+      rename: self.rename.or(other.rename),
+      tag: self.tag.or(other.tag),
+      skip_serializing: self.skip_serializing || other.skip_serializing,
+      skip_serializing_if: self.skip_serializing_if.or(other.skip_serializing_if),
+      text: self.text || other.text,
+      cdata: self.cdata || other.cdata,
+    }
+  }
+
   pub fn xml_element_name(&self, ident: &Ident) -> String {
     self
       .rename
-- 
2.43.0

