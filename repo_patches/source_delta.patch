From ca773abc6c38ee540eb22781d0951b277f5f59e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:51 +0000
Subject: [PATCH 01/33] fix: report write errors when serializing primitive
 types

---
 yaserde/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 6c86ac9..06b0f61 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,8 +177,7 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        let _ret = writer.write(event);
-        Ok(())
+        writer.write(event).map_err(|e| e.to_string())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From f800bdc0d5881960c24c96c80f4414562b728682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 02/33] fix: read hexBinary values as the hexadecimal digits
 that are written

---
 yaserde_derive/src/primitives.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 386bf28..774f4e4 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -71,8 +71,11 @@ pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
 
       fn from_str(s: &::std::primitive::str) -> ::std::result::Result<Self, Self::Err> {
         Self::from_bits(
-          s.parse()
-              .map_err(|_| String::from("Failed to parse Bitflag integer"))?,
+          // `Display` writes hexadecimal digits
+          ::std::primitive::u128::from_str_radix(s, 16)
+              .ok()
+              .and_then(|bits| ::std::convert::TryInto::try_into(bits).ok())
+              .ok_or_else(|| String::from("Failed to parse Bitflag integer"))?,
       )
       .ok_or(String::from("Unknown bits were set in Bitflag"))
       }
-- 
2.43.0


From 7f0361ec10dfbbc7ee4b3863241d4736f63f557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 03/33] fix: honour skip_serializing on attribute fields

---
 yaserde_derive/src/common/field.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 06f650c..5c2267a 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -186,6 +186,12 @@ impl YaSerdeField {
       .map(|skip_if_function| quote!(!self.#skip_if_function(&self.#label)))
       .unwrap_or(quote!(true));
 
+    let skip_if = if self.is_skip_serializing() {
+      quote!(false)
+    } else {
+      skip_if
+    };
+
     self
       .get_default_function()
       .map(|default_function| {
-- 
2.43.0


From e117c2be73987500afef0a501ad1817c1b6e3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 04/33] fix: refuse a malformed enum payload instead of
 panicking

---
 yaserde_derive/src/de/expand_enum.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3134a07..6f9e01c 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -182,12 +182,22 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
 
       let simple_type_visitor = |simple_type: Field| {
         let visitor = simple_type.get_simple_type_visitor();
-        let field_type = simple_type.into();
+        let field_type: TokenStream = simple_type.into();
+
+        let map_if_bool = if field_type.to_string() == "bool" {
+          quote!(match v {
+            "1" => "true",
+            "0" => "false",
+            _ => v,
+          })
+        } else {
+          quote!(v)
+        };
 
         make_visitor(
           &visitor,
           &field_type,
-          &quote! { ::std::result::Result::Ok(#field_type::from_str(v).unwrap()) },
+          &quote! { #field_type::from_str(#map_if_bool).map_err(|e| e.to_string()) },
         )
       };
 
@@ -257,9 +267,8 @@ fn build_unnamed_visitor_calls(
             }
           });
 
-          if let ::std::result::Result::Ok(value) = result {
-            #action
-          }
+          let value = result?;
+          #action
         })
       };
 
-- 
2.43.0


From 7471a12606ad95e53d8e0af77df9fca8592e43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:18 +0000
Subject: [PATCH 05/33] fix: do not read enum payload variants from text equal
 to their name

---
 yaserde_derive/src/de/expand_enum.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 6f9e01c..bc24d7f 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -23,6 +23,14 @@ pub fn parse(
     .filter_map(|variant| parse_variant(variant, name))
     .collect();
 
+  // Only unit variants are written as text: a payload is never read from character data.
+  let match_text_to_enum: TokenStream = data_enum
+    .variants
+    .iter()
+    .filter(|variant| matches!(variant.fields, Fields::Unit))
+    .filter_map(|variant| parse_variant(variant, name))
+    .collect();
+
   let flatten = root_attributes.flatten;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
@@ -75,7 +83,7 @@ pub fn parse(
 
               if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
                 match content.as_str() {
-                  #match_to_enum
+                  #match_text_to_enum
                   _ => {}
                 }
               }
-- 
2.43.0


From 296760b489ecc916a3c3cd228d585e4d2d3c828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:42 +0000
Subject: [PATCH 06/33] fix: return an error instead of looping at the end of
 the document in structs

---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fca7486..972bd4f 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -460,6 +460,10 @@ pub fn parse(
               if #flatten {
                 break;
               }
+
+              return ::std::result::Result::Err(
+                ::std::format!("End of document, missing some content ?"),
+              );
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
               #set_text
-- 
2.43.0


From 2be20ee8e8849c4bb0e2715124b9527c8e410468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:43 +0000
Subject: [PATCH 07/33] fix: take the element of a struct as its root whatever
 its name is

---
 yaserde_derive/src/de/expand_struct.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 972bd4f..5423937 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -421,9 +421,10 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && name.local_name == #root && namespace.as_str() == #root_namespace {
-                // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
-                // want to prematurely match the child element below.
+              if depth == 0 && (!#flatten || (name.local_name == #root && namespace.as_str() == #root_namespace)) {
+                // Consume root element, whatever its name is unless the struct is flattened. We must do this first.
+                // In the case it shares a name with a child element, we don't want to prematurely match the child
+                // element below.
                 let event = reader.next_event()?;
                 #write_unused
               } else {
-- 
2.43.0


From a0374fb57c0fd18b67ff84c561e0b7fd56ef5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:16 +0000
Subject: [PATCH 08/33] fix: read enum variants only from direct children of
 the enum element

---
 yaserde_derive/src/de/expand_enum.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index bc24d7f..55feb90 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -74,17 +74,25 @@ pub fn parse(
           ::yaserde::__derive_trace!("Enum {} @ {}: matching {:?}", stringify!(#name), start_depth, event);
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement { ref name, ref attributes, .. } => {
+              let own_element = reader.depth() == start_depth;
+
               match #element_name {
                 #match_to_enum
                 _named_element => {
                   let _root = reader.next_event();
+
+                  if !own_element {
+                    reader.skip_element(|_event| {})?;
+                  }
                 }
               }
 
-              if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
-                match content.as_str() {
-                  #match_text_to_enum
-                  _ => {}
+              if own_element && reader.depth() == start_depth + 1 {
+                if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
+                  match content.as_str() {
+                    #match_text_to_enum
+                    _ => {}
+                  }
                 }
               }
             }
-- 
2.43.0


From 6cc41e706e91c81a9ce5e887f6314ad23cfd49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:58 +0000
Subject: [PATCH 09/33] fix: leave the reader on the closing tag of an enum
 element

---
 yaserde_derive/src/de/expand_enum.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 55feb90..cafda15 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -120,6 +120,21 @@ pub fn parse(
           }
         }
 
+        // Leave the reader on the closing tag of the enum
+        while reader.depth() != start_depth + 1
+          || !::std::matches!(reader.peek()?, ::yaserde::__xml::reader::XmlEvent::EndElement { .. })
+        {
+          if let ::yaserde::__xml::reader::XmlEvent::EndDocument = reader.next_event()? {
+            if #flatten {
+              break;
+            }
+
+            return ::std::result::Result::Err(
+              ::std::format!("End of document, missing some content ?"),
+            );
+          }
+        }
+
         ::yaserde::__derive_debug!("Enum {} @ {}: success", stringify!(#name), start_depth);
         ::std::result::Result::Ok(enum_value.unwrap_or(<#name as ::std::default::Default>::default()))
       }
-- 
2.43.0


From 72169f117d421e22759e7b360ee1f49a1135b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:20 +0000
Subject: [PATCH 10/33] fix: do not take the name of the element holding an
 enum for a variant

---
 yaserde_derive/src/de/expand_enum.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index cafda15..4bfaf1a 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -34,6 +34,9 @@ pub fn parse(
   let flatten = root_attributes.flatten;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
+  // A flattened enum has no element of its own, and a tag is on the element of the enum
+  let matches_own_element = flatten || root_attributes.tag.is_some();
+
   let element_name = if let Some(tag) = &root_attributes.tag {
     quote! {
       attributes
@@ -77,6 +80,10 @@ pub fn parse(
               let own_element = reader.depth() == start_depth;
 
               match #element_name {
+                // The name of the element holding the enum doesn't name a variant
+                _ if own_element && !#matches_own_element => {
+                  let _root = reader.next_event();
+                }
                 #match_to_enum
                 _named_element => {
                   let _root = reader.next_event();
-- 
2.43.0


From 7947a5bb0e7b02108a3f672a37791da1f1f5f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:40 +0000
Subject: [PATCH 11/33] fix: read an empty element as an empty string

---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 5423937..a4809d5 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -512,6 +512,10 @@ fn build_call_visitor(
       #namespaces_matching
 
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
+        if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
+          return visitor.#visitor("");
+        }
+
         if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
           let val = visitor.#visitor(&s);
           let _event = reader.next_event()?;
-- 
2.43.0


From 8ae1fc4595a737a8d46ff60cba2a23cf964f75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:00 +0000
Subject: [PATCH 12/33] fix: skip the content of an element whose value is not
 understood

---
 yaserde_derive/src/de/expand_struct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index a4809d5..9fa0b5f 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -511,6 +511,7 @@ fn build_call_visitor(
 
       #namespaces_matching
 
+      let element_depth = reader.depth();
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
         if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
           return visitor.#visitor("");
@@ -528,6 +529,11 @@ fn build_call_visitor(
       if let ::std::result::Result::Ok(value) = result {
         #value_label#action
       }
+
+      // Skip the rest of an element that isn't understood: its content isn't part of this struct
+      while reader.depth() > element_depth {
+        let _event = reader.next_event()?;
+      }
     }
   })
 }
-- 
2.43.0


From 8225fc181206e43e80d9d8b4f469a04c25b6c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:00 +0000
Subject: [PATCH 13/33] fix: return an error when skipping an element cut by
 the end of the document

---
 yaserde/src/de/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index b08b138..c8bbe90 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -93,7 +93,11 @@ impl<R: Read> Deserializer<R> {
     let depth = self.depth;
 
     while self.depth >= depth {
-      cb(&self.next_event()?);
+      let event = self.next_event()?;
+      if event == XmlEvent::EndDocument {
+        return Err("End of document, missing some content ?".to_string());
+      }
+      cb(&event);
     }
 
     Ok(())
-- 
2.43.0


From 44a63b8b819099b038f4f90630fde8b754a7a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:40 +0000
Subject: [PATCH 14/33] fix: write the attributes of optional flattened structs
 and honour skip conditions on flattened attributes

---
 yaserde_derive/src/ser/expand_struct.rs | 30 ++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 2a4507b..15fbe98 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -121,15 +121,33 @@ pub fn serialize(
           }
         }
       } else {
+        let conditions = condition_generator(&label, &field);
+
         match field.get_type() {
           Field::FieldStruct { .. } => {
             quote!(
-              let (attributes, namespace) = self.#label.serialize_attributes(
-                ::std::vec![],
-                ::yaserde::__xml::namespace::Namespace::empty(),
-              )?;
-              child_attributes_namespace.extend(&namespace);
-              child_attributes.extend(attributes);
+              #conditions {
+                let (attributes, namespace) = self.#label.serialize_attributes(
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                child_attributes_namespace.extend(&namespace);
+                child_attributes.extend(attributes);
+              }
+            )
+          }
+          Field::FieldOption { data_type } if matches!(*data_type, Field::FieldStruct { .. }) => {
+            quote!(
+              #conditions {
+                if let ::std::option::Option::Some(ref item) = self.#label {
+                  let (attributes, namespace) = item.serialize_attributes(
+                    ::std::vec![],
+                    ::yaserde::__xml::namespace::Namespace::empty(),
+                  )?;
+                  child_attributes_namespace.extend(&namespace);
+                  child_attributes.extend(attributes);
+                }
+              }
             )
           }
           _ => quote!(),
-- 
2.43.0


From 951914c97c3040aedaad20588b53e0f4579ec677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:43 +0000
Subject: [PATCH 15/33] fix: honour skip conditions on text content

---
 yaserde_derive/src/ser/expand_struct.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 15fbe98..0785320 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -163,21 +163,27 @@ pub fn serialize(
     .filter(|field| !field.is_attribute())
     .filter_map(|field| {
       let label = field.label();
+      let conditions = condition_generator(&label, &field);
+
       if field.is_text_content() {
         return match field.get_type() {
           Field::FieldOption { .. } => Some(quote!(
-            let s = self.#label.as_deref().unwrap_or_default();
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let s = self.#label.as_deref().unwrap_or_default();
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
           _ => Some(quote!(
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
         };
       }
+
       let label_name = field.renamed_label(root_attributes);
-      let conditions = condition_generator(&label, &field);
 
       if field.is_cdata() {
         return quote! {
-- 
2.43.0


From b7689192c24c06165d9fe0e973932f154a75ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:01 +0000
Subject: [PATCH 16/33] fix: read a text content without characters as an empty
 string

---
 yaserde_derive/src/de/expand_struct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 9fa0b5f..c3be690 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -360,6 +360,9 @@ pub fn parse(
         _ => {
           if let Some(default_function) = field.get_default_function() {
             quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }
+          } else if field.is_text_content() {
+            // An empty text content isn't reported by the reader
+            quote! { #label: #value_label.unwrap_or_default(), }
           } else {
             let error = format!(
               "{} is a required field of {}",
-- 
2.43.0


From eb5c5c453a6aa09fe4f1216dc63dfc24a9a5ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:01 +0000
Subject: [PATCH 17/33] fix: keep CDATA sections whose content holds the CDATA
 end mark well-formed

---
 yaserde_derive/src/ser/expand_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 0785320..f8570be 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -190,7 +190,9 @@ pub fn serialize(
             #conditions {
               let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
               writer.write(start_event).map_err(|e| e.to_string())?;
-              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&self.#label);
+              // A CDATA section ends at its first "]]>": spread it over two sections
+              let cdata = self.#label.replace("]]>", "]]]]><![CDATA[>");
+              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&cdata);
               writer.write(data).map_err(|e| e.to_string())?;
               let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
               writer.write(end_event).map_err(|e| e.to_string())?;
-- 
2.43.0


From c511431c605718609dd6445529cab1341514c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 18/33] fix: name elements after raw identifiers without their
 r# mark

---
 yaserde_derive/src/common/attribute.rs | 6 +++++-
 yaserde_derive/src/common/field.rs     | 2 +-
 yaserde_derive/src/ser/label.rs        | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 3532af1..68a1140 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -4,6 +4,7 @@ use serde::Deserialize;
 use serde_tokenstream::from_tokenstream;
 use std::collections::BTreeMap;
 use std::convert::TryFrom;
+use syn::ext::IdentExt;
 use syn::{Attribute, Meta};
 
 #[derive(Clone, Debug, Default, PartialEq, Deserialize)]
@@ -88,7 +89,10 @@ impl From<&Vec<Attribute>> for YaSerdeAttribute {
 
 impl YaSerdeAttribute {
   pub fn xml_element_name(&self, ident: &Ident) -> String {
-    self.rename.clone().unwrap_or_else(|| ident.to_string())
+    self
+      .rename
+      .clone()
+      .unwrap_or_else(|| ident.unraw().to_string())
   }
 
   pub fn prefix_namespace(&self) -> String {
diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 5c2267a..cb112c1 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -61,7 +61,7 @@ impl YaSerdeField {
       .attributes
       .rename
       .clone()
-      .unwrap_or_else(|| self.label().as_ref().unwrap().to_string())
+      .unwrap_or_else(|| self.label().as_ref().unwrap().unraw().to_string())
   }
 
   pub fn renamed_label(&self, root_attributes: &YaSerdeAttribute) -> String {
diff --git a/yaserde_derive/src/ser/label.rs b/yaserde_derive/src/ser/label.rs
index 89998a5..bc3a0bb 100644
--- a/yaserde_derive/src/ser/label.rs
+++ b/yaserde_derive/src/ser/label.rs
@@ -1,5 +1,6 @@
 use crate::common::YaSerdeAttribute;
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub fn build_label_name(
   label: &Ident,
@@ -18,7 +19,7 @@ pub fn build_label_name(
   let label = field_attrs
     .rename
     .clone()
-    .unwrap_or_else(|| label.to_string());
+    .unwrap_or_else(|| label.unraw().to_string());
 
   format!("{}{}", prefix, label)
 }
-- 
2.43.0


From 854074ae60abe9df8aeffb3751842e5d85678ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 19/33] fix: write the attributes of a struct held by an enum
 variant

---
 yaserde_derive/src/ser/expand_enum.rs | 33 +++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 560ed79..65ba8ac 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -255,6 +255,28 @@ fn inner_enum_inspector(
                 writer.write(data_event).map_err(|e| e.to_string())?;
               });
 
+              // The element of the variant holds the attributes and namespaces of its payload
+              let write_element_with_attributes = |action: &TokenStream| {
+                quote! {
+                  let (attributes, namespace) = ::yaserde::YaSerialize::serialize_attributes(
+                    item,
+                    ::std::vec![],
+                    ::yaserde::__xml::namespace::Namespace::empty(),
+                  )?;
+                  let struct_start_event = ::yaserde::__xml::writer::events::XmlEvent::StartElement {
+                    name: #label_name.into(),
+                    attributes: attributes.iter().map(|attribute| attribute.borrow()).collect(),
+                    namespace: ::std::borrow::Cow::Owned(namespace),
+                  };
+                  writer.write(struct_start_event).map_err(|e| e.to_string())?;
+
+                  #action
+
+                  let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                  writer.write(struct_end_event).map_err(|e| e.to_string())?;
+                }
+              };
+
               let serialize = quote! {
                 writer.set_start_event_name(::std::option::Option::None);
                 writer.set_skip_start_end(true);
@@ -262,10 +284,11 @@ fn inner_enum_inspector(
               };
 
               let write_sub_type = |data_type| {
-                write_element(match data_type {
-                  Field::FieldString => &write_string_chars,
-                  _ => &serialize,
-                })
+                match data_type {
+                  Field::FieldString => write_element(&write_string_chars),
+                  Field::FieldStruct { .. } => write_element_with_attributes(&serialize),
+                  _ => write_element(&serialize),
+                }
               };
 
               let match_field = |write: &TokenStream| {
@@ -302,7 +325,7 @@ fn inner_enum_inspector(
                   if variant_attrs.flatten || field.is_flatten() {
                      match_field(&quote!{ ::yaserde::YaSerialize::serialize(item, writer)?})
                    } else {
-                     write_element(&match_field(&serialize))
+                     match_field(&write_element_with_attributes(&serialize))
                    }
                 }
                 Field::FieldString => match_field(&write_element(&write_string_chars)),
-- 
2.43.0


From a6dd3893112fc7a171c3ff2e9619a2f29c3d9c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 20/33] fix: read a flattened unit variant written after other
 elements

---
 yaserde_derive/src/de/expand_enum.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 4bfaf1a..0800765 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -93,15 +93,6 @@ pub fn parse(
                   }
                 }
               }
-
-              if own_element && reader.depth() == start_depth + 1 {
-                if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
-                  match content.as_str() {
-                    #match_text_to_enum
-                    _ => {}
-                  }
-                }
-              }
             }
             ::yaserde::__xml::reader::XmlEvent::EndElement { ref name } => {
               if name.local_name == named_element && reader.depth() == start_depth + 1 {
@@ -110,6 +101,12 @@ pub fn parse(
               let _root = reader.next_event();
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
+              if enum_value.is_none() && reader.depth() == start_depth + 1 {
+                match text_content.as_str() {
+                  #match_text_to_enum
+                  _ => {}
+                }
+              }
               let _root = reader.next_event();
             }
             ::yaserde::__xml::reader::XmlEvent::EndDocument => {
-- 
2.43.0


From c770aef9068bfb495e78b617dc960ae6657b6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 21/33] fix: read a unit variant back from its prefixed text

---
 yaserde_derive/src/de/expand_enum.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 0800765..3085503 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -1,4 +1,5 @@
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
+use crate::ser::label::build_label_name;
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::{DataEnum, Fields, Generics, Ident};
@@ -28,7 +29,26 @@ pub fn parse(
     .variants
     .iter()
     .filter(|variant| matches!(variant.fields, Fields::Unit))
-    .filter_map(|variant| parse_variant(variant, name))
+    .map(|variant| {
+      let variant_attrs = YaSerdeAttribute::from(&variant.attrs);
+      let label = &variant.ident;
+      let xml_element_name = variant_attrs.xml_element_name(label);
+      // The serializer writes the prefix of the variant in the text
+      let label_name = build_label_name(label, &variant_attrs, &root_attributes.default_namespace);
+
+      let pattern = if label_name == xml_element_name {
+        quote! { #xml_element_name }
+      } else {
+        quote! { #xml_element_name | #label_name }
+      };
+
+      quote! {
+        #pattern => {
+          enum_value = ::std::option::Option::Some(#name::#label);
+          break;
+        }
+      }
+    })
     .collect();
 
   let flatten = root_attributes.flatten;
-- 
2.43.0


From 71ce83f7c9e6dc4d87442eb1ad12f01fbb5501f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 22/33] fix: keep the text on both sides of a child element or
 processing instruction

---
 yaserde_derive/src/de/expand_struct.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index c3be690..669a3e0 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -328,12 +328,21 @@ pub fn parse(
           .then_some(quote! { #label = #action; })
       };
 
+      // The reader reports the text around a child element or processing instruction in pieces
+      let append_text = || {
+        field.is_text_content().then_some(quote! {
+          if !text_content.is_empty() {
+            #label
+              .get_or_insert_with(::std::string::String::new)
+              .push_str(text_content);
+          }
+        })
+      };
+
       match field.get_type() {
-        Field::FieldString => set_text(&quote! { Some(text_content.to_owned()) }),
+        Field::FieldString => append_text(),
         Field::FieldOption { data_type } => match *data_type {
-          Field::FieldString => set_text(
-            &quote! { if text_content.is_empty() { None } else { Some(text_content.to_owned()) }},
-          ),
+          Field::FieldString => append_text(),
           _ => None,
         },
         Field::FieldStruct { .. } | Field::FieldVec { .. } => None,
-- 
2.43.0


From 143183482ca088f9c8e61179e1abe6fdde60cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 23/33] fix: take the whole element when reading a primitive
 wrapper

---
 yaserde/src/primitives.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/yaserde/src/primitives.rs b/yaserde/src/primitives.rs
index 0d4107f..4ef1a90 100644
--- a/yaserde/src/primitives.rs
+++ b/yaserde/src/primitives.rs
@@ -43,9 +43,20 @@ pub fn deserialize_primitives<S, R: Read>(
     return Err("Start element not found".to_string());
   }
 
-  if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-    deserialize_function(text)
-  } else {
-    deserialize_function("")
+  // Take the whole content: the reader is left on the end of the element, and what is inside is never seen by others
+  let mut content = String::new();
+
+  loop {
+    match reader.peek()? {
+      xml::reader::XmlEvent::Characters(text) => {
+        content.push_str(text);
+        reader.next_event()?;
+      }
+      xml::reader::XmlEvent::StartElement { .. } => {
+        reader.next_event()?;
+        reader.skip_element(|_event| {})?;
+      }
+      _ => return deserialize_function(&content),
+    }
   }
 }
-- 
2.43.0


From eafbbaff794a20d6919a7291a5ffdbcd14ecb950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:51 +0000
Subject: [PATCH 24/33] fix: do not read a text content from a child element
 named like its field

---
 yaserde_derive/src/de/expand_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 669a3e0..ff6ec75 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -144,7 +144,7 @@ pub fn parse(
     .fields
     .iter()
     .map(|field| YaSerdeField::new(field.clone()))
-    .filter(|field| !field.is_attribute() && !field.is_flatten())
+    .filter(|field| !field.is_attribute() && !field.is_flatten() && !field.is_text_content())
     .filter_map(|field| {
       let value_label = field.get_value_label();
       let label_name = field.renamed_label_without_namespace();
-- 
2.43.0


From 8657f0394821a5e25cce4b8daae28d4a537e2fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 25/33] fix: do not take the name of the element holding a
 flattened enum for a variant

---
 yaserde_derive/src/de/expand_struct.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index ff6ec75..9b6660b 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -395,6 +395,21 @@ pub fn parse(
     build_code_for_unused_xml_events(&call_flatten_visitors)
   };
 
+  // The name of the element holding flattened parts is never the name of something in these parts
+  let rename_unused_root = write_unused.is_some().then(|| {
+    quote! {
+      let event = {
+        let mut event = event.clone();
+        if let ::yaserde::__xml::reader::XmlEvent::StartElement { name, .. }
+        | ::yaserde::__xml::reader::XmlEvent::EndElement { name } = &mut event
+        {
+          name.local_name = ::std::string::String::from("__yaserde_flatten");
+        }
+        event
+      };
+    }
+  });
+
   let flatten = root_attributes.flatten;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
@@ -438,6 +453,7 @@ pub fn parse(
                 // In the case it shares a name with a child element, we don't want to prematurely match the child
                 // element below.
                 let event = reader.next_event()?;
+                #rename_unused_root
                 #write_unused
               } else {
 
@@ -445,12 +461,15 @@ pub fn parse(
                   #call_visitors
                   _ => {
                     let event = reader.next_event()?;
-                    #write_unused
 
                     if depth > 0 { // Don't skip root element
+                      #write_unused
                       reader.skip_element(|event| {
                         #write_unused
                       })?;
+                    } else {
+                      #rename_unused_root
+                      #write_unused
                     }
                   }
                 }
@@ -462,6 +481,7 @@ pub fn parse(
             }
             ::yaserde::__xml::reader::XmlEvent::EndElement { ref name } => {
               if name.local_name == named_element && reader.depth() == start_depth + 1 {
+                #rename_unused_root
                 #write_unused
                 break;
               }
-- 
2.43.0


From fade5be0bf3364e8d9a193bef6e7275200e43b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 26/33] fix: write the element of a flattened variant whatever
 was written before

---
 yaserde_derive/src/ser/expand_enum.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 65ba8ac..aa82bcb 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -323,7 +323,14 @@ fn inner_enum_inspector(
                 }
                 Field::FieldStruct { .. } => {
                   if variant_attrs.flatten || field.is_flatten() {
-                     match_field(&quote!{ ::yaserde::YaSerialize::serialize(item, writer)?})
+                     // The payload has an element of its own, unless its attributes were given to the parent
+                     let inlined = root_attributes.flatten && field.is_flatten();
+                     let own_element = (!inlined).then(|| quote!(writer.set_skip_start_end(false);));
+                     match_field(&quote!{
+                       writer.set_start_event_name(::std::option::Option::None);
+                       #own_element
+                       ::yaserde::YaSerialize::serialize(item, writer)?
+                     })
                    } else {
                      match_field(&write_element_with_attributes(&serialize))
                    }
-- 
2.43.0


From 25bbbe622a97d3732f3cdf69f480a18747895987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 27/33] fix: write usize, isize and char fields in an element
 of their own

---
 yaserde/src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 06b0f61..468d738 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,7 +177,25 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        writer.write(event).map_err(|e| e.to_string())
+
+        // A field has an element of its own
+        let element = writer
+          .get_start_event_name()
+          .filter(|_name| !writer.skip_start_end());
+
+        if let Some(name) = &element {
+          let start_event = XmlEvent::start_element(name.as_str());
+          writer.write(start_event).map_err(|e| e.to_string())?;
+        }
+
+        writer.write(event).map_err(|e| e.to_string())?;
+
+        if element.is_some() {
+          let end_event = XmlEvent::end_element();
+          writer.write(end_event).map_err(|e| e.to_string())?;
+        }
+
+        Ok(())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From 9a7b20ea05333872c3f69c03037ea443900f80a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:23 +0000
Subject: [PATCH 28/33] fix: write the optional fields and the items of a
 struct variant of an enum

---
 yaserde_derive/src/ser/expand_enum.rs | 46 ++++++++++++++++++---------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index aa82bcb..ba0485c 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -1,5 +1,8 @@
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
-use crate::ser::{implement_serializer::implement_serializer, label::build_label_name};
+use crate::ser::{
+  element::enclose_formatted_characters_for_value, implement_serializer::implement_serializer,
+  label::build_label_name,
+};
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::Fields;
@@ -200,21 +203,34 @@ fn inner_enum_inspector(
                     _ => {}
                   }
                 }),
-                Field::FieldVec { .. } => Some(quote! {
-                  match self {
-                    &#name::#label { ref #field_label, .. } => {
-                      for item in #field_label {
-                        writer.set_start_event_name(
-                          ::std::option::Option::Some(#field_label_name.to_string()),
-                        );
-                        writer.set_skip_start_end(false);
-                        ::yaserde::YaSerialize::serialize(item, writer)?;
-                      }
+                Field::FieldOption { data_type } if matches!(*data_type, Field::FieldVec { .. }) => None,
+                Field::FieldVec { data_type } | Field::FieldOption { data_type } => {
+                  let write_item = match *data_type {
+                    Field::FieldStruct { .. } => quote! {
+                      writer.set_start_event_name(
+                        ::std::option::Option::Some(#field_label_name.to_string()),
+                      );
+                      writer.set_skip_start_end(false);
+                      ::yaserde::YaSerialize::serialize(item, writer)?;
                     },
-                    _ => {}
-                  }
-                }),
-                Field::FieldOption { .. } => None,
+                    _simple_type => {
+                      let item_ident = Ident::new("item", field.get_span());
+
+                      enclose_formatted_characters_for_value(&item_ident, field_label_name)
+                    }
+                  };
+
+                  Some(quote! {
+                    match self {
+                      &#name::#label { ref #field_label, .. } => {
+                        for item in #field_label {
+                          #write_item
+                        }
+                      },
+                      _ => {}
+                    }
+                  })
+                }
               }
             })
             .collect();
-- 
2.43.0


From aab8289671a5739a92667d8bbcd843aa1a89e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:11 +0000
Subject: [PATCH 29/33] fix: write optional items under the name of their field

---
 yaserde_derive/src/ser/expand_struct.rs | 29 +++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index f8570be..b8b3672 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -328,17 +328,28 @@ pub fn serialize(
               }
             })
           }
-          Field::FieldOption { .. } => Some(quote! {
-            #conditions {
-              for item in &self.#label {
-                if let Some(value) = item {
-                  writer.set_start_event_name(None);
-                  writer.set_skip_start_end(false);
-                  ::yaserde::YaSerialize::serialize(value, writer)?;
+          Field::FieldOption { data_type } => {
+            let write_item = match *data_type {
+              Field::FieldOption { .. } | Field::FieldVec { .. } => unimplemented!(),
+              Field::FieldStruct { .. } => quote! {
+                writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
+                writer.set_skip_start_end(false);
+                ::yaserde::YaSerialize::serialize(yaserde_item, writer)?;
+              },
+              _simple_type => {
+                let item_ident = Ident::new("yaserde_item", field.get_span());
+                enclose_formatted_characters_for_value(&item_ident, label_name)
+              }
+            };
+
+            Some(quote! {
+              #conditions {
+                for yaserde_item in self.#label.iter().flatten() {
+                  #write_item
                 }
               }
-            }
-          }),
+            })
+          }
           Field::FieldStruct { .. } => {
             if field.is_flatten() {
               Some(quote! {
-- 
2.43.0


From 137a76f276b4b3c2bd860ee6c9e0d9b7ef2c3087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 30/33] fix: write attributes holding lists

---
 yaserde_derive/src/ser/expand_struct.rs | 27 ++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index b8b3672..7b7cedb 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -115,9 +115,30 @@ pub fn serialize(
               struct_start_event.attr(#label_name, &yaserde_inner)
             }),
           ),
-          Field::FieldVec { .. } => {
-            // TODO
-            quote!()
+          Field::FieldVec { data_type } => {
+            let item = match *data_type {
+              Field::FieldOption { .. } | Field::FieldVec { .. } => return quote!(),
+              Field::FieldStruct { .. } => quote!(::yaserde::ser::to_string_content(yaserde_item)?),
+              _simple_type => quote!(yaserde_item.to_string()),
+            };
+
+            // A list separated by spaces
+            field.ser_wrap_default_attribute(
+              Some(quote!({
+                let mut yaserde_list = ::std::vec::Vec::<::std::string::String>::new();
+                for yaserde_item in &self.#label {
+                  yaserde_list.push(#item);
+                }
+                yaserde_list.join(" ")
+              })),
+              quote!({
+                if self.#label.is_empty() {
+                  struct_start_event
+                } else {
+                  struct_start_event.attr(#label_name, &yaserde_inner)
+                }
+              }),
+            )
           }
         }
       } else {
-- 
2.43.0


From fc5637968bc157a34f4a0248fc631c88e93613d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:51 +0000
Subject: [PATCH 31/33] fix: do not write what follows a value under the name
 and state of its last part

---
 yaserde_derive/src/ser/implement_serializer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaserde_derive/src/ser/implement_serializer.rs b/yaserde_derive/src/ser/implement_serializer.rs
index 82c3759..f4bf032 100644
--- a/yaserde_derive/src/ser/implement_serializer.rs
+++ b/yaserde_derive/src/ser/implement_serializer.rs
@@ -26,6 +26,7 @@ pub fn implement_serializer(
         writer: &mut ::yaserde::ser::Serializer<W>,
       ) -> ::std::result::Result<(), ::std::string::String> {
         let skip = writer.skip_start_end();
+        let yaserde_start_event_name = writer.get_start_event_name();
 
         if !#flatten && !skip {
           let mut child_attributes = ::std::vec![];
@@ -69,6 +70,10 @@ pub fn implement_serializer(
           writer.write(struct_end_event).map_err(|e| e.to_string())?;
         }
 
+        // What is written next doesn't take the name or state of the parts of this value
+        writer.set_start_event_name(yaserde_start_event_name);
+        writer.set_skip_start_end(skip);
+
         ::std::result::Result::Ok(())
       }
 
-- 
2.43.0


From 6ce0662fa3b0a2f3e9fa2fd634f9e8582f43ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:28 +0000
Subject: [PATCH 32/33] fix: do not check the namespace of the element holding
 flattened parts against theirs

---
 yaserde_derive/src/de/expand_enum.rs   | 5 ++++-
 yaserde_derive/src/de/expand_struct.rs | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3085503..944c565 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -87,7 +87,10 @@ pub fn parse(
         let start_depth = reader.depth();
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
-        #namespaces_matching
+        // The element holding flattened parts is not their own: its namespace is the one of its type
+        if named_element != "__yaserde_flatten" {
+          #namespaces_matching
+        }
 
         #[allow(unused_assignments, unused_mut)]
         let mut enum_value = ::std::option::Option::None;
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 9b6660b..dcd9d11 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -429,7 +429,8 @@ pub fn parse(
         ::yaserde::__derive_debug!("Struct {} @ {}: start to parse {:?}", stringify!(#name), start_depth,
                named_element);
 
-        if reader.depth() == 0 {
+        // The element holding flattened parts is not their own: its namespace is the one of its type
+        if reader.depth() == 0 && named_element != "__yaserde_flatten" {
           #namespaces_matching
         }
 
-- 
2.43.0


From 742f4905573334b1ff36884c504328a0244a894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 33/33] fix: check the namespace of an enum's element only when
 it is the root, as for structs

---
 yaserde_derive/src/de/expand_enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 944c565..5df89ea 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -88,7 +88,7 @@ pub fn parse(
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
         // The element holding flattened parts is not their own: its namespace is the one of its type
-        if named_element != "__yaserde_flatten" {
+        if reader.depth() == 0 && named_element != "__yaserde_flatten" {
           #namespaces_matching
         }
 
-- 
2.43.0

