From 00794430f6ff0803aa01d14c63668801f4f9ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:27 +0000
Subject: [PATCH 01/19] fix: check links nested in inline models when verifying
 schemas

---
 opg/src/models.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index a761c3e..24a657b 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1045,7 +1045,8 @@ impl ModelReference {
     fn traverse<'a>(&'a self, mut cx: TraverseContext<'a>) -> Result<(), &'a str> {
         match &self {
             ModelReference::Link(ref link) => cx.check(link),
-            _ => Ok(()),
+            ModelReference::Inline(model) => model.traverse(cx),
+            ModelReference::Any => Ok(()),
         }
     }
 }
-- 
2.43.0


From b188b3ae3102a2326bc53644573605ca7b600cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 02/19] fix: do not leave a half-merged object after a failed
 merge

---
 opg/src/models.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 24a657b..c499cc3 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -966,6 +966,15 @@ impl ModelObject {
 
     /// Merge other object into self
     pub fn merge(&mut self, another: ModelObject) -> Result<(), ModelMergeError> {
+        // Check for conflicts first, so that a failed merge leaves `self` untouched
+        if another
+            .properties
+            .keys()
+            .any(|property| self.properties.contains_key(property))
+        {
+            return Err(ModelMergeError);
+        }
+
         another
             .properties
             .into_iter()
-- 
2.43.0


From 3bec1123b66e07257f27d7489cb2aec02da62a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:29 +0000
Subject: [PATCH 03/19] fix: do not serialize an absent request body
 description as null

---
 opg/src/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index c499cc3..2da8852 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -346,6 +346,7 @@ impl Serialize for RequestBody {
         struct RequestBodyHelper<'a> {
             #[serde(skip_serializing_if = "is_false")]
             required: bool,
+            #[serde(skip_serializing_if = "Option::is_none")]
             description: &'a Option<String>,
             content: ResponseContent<'a>,
         }
-- 
2.43.0


From 61c6f8f05872639ee13be88b27537adf985e251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:59 +0000
Subject: [PATCH 04/19] fix: do not overflow the stack on recursive types

---
 opg/src/models.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 2da8852..44e7974 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -541,6 +541,13 @@ impl Components {
         let reference = M::select_reference(self, inline, params);
         if let ModelReference::Link(link) = &reference {
             if !self.schemas.contains_key(link) {
+                // Reserve the name first, so that a recursive type stops at its own link
+                let placeholder = Model {
+                    description: None,
+                    data: ModelAnyOf::default().into(),
+                };
+                self.schemas.insert(link.to_owned(), placeholder);
+
                 let structure = M::get_schema(self);
                 self.schemas.insert(link.to_owned(), structure);
             }
-- 
2.43.0


From c575c1a47378b8f851af56e4de1b16da1cfc0f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:00 +0000
Subject: [PATCH 05/19] fix: do not register the nullable schema of an optional
 under the type's name

---
 opg/src/macros.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 3657741..cc39526 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -180,6 +180,15 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            #[inline]
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                match <Self as $crate::OpgModel>::type_name() {
+                    // Register the type itself under its name and not its nullable version
+                    Some(_) if !inline => cx.mention_schema::<T>(inline, params),
+                    _ => $crate::ModelReference::Inline(Self::get_schema(cx).apply_params(params)),
+                }
+            }
         }
     };
 
-- 
2.43.0


From 1fa9acbf2c85f8bb6505f466bc84f134050aee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:02 +0000
Subject: [PATCH 06/19] fix: describe struct variants of adjacently tagged
 enums as objects

---
 opg_derive/src/opg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index b77129c..18dce53 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -213,7 +213,7 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| variant.attrs.inline || field.attrs.inline,
                     )),
-                    StructStyle::Struct => inline_reference(tuple_model(
+                    StructStyle::Struct => inline_reference(object_model(
                         false,
                         &variant.attrs.description,
                         &variant.fields,
-- 
2.43.0


From 4ad1aceaf2d1f48ca2843cf5b1a506ca0ec39916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 07/19] fix: honour the nullable attribute of newtype structs

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 18dce53..a2c80be 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -874,6 +874,7 @@ impl<'a> ContextParams<'a> {
     {
         let other = other.into();
         self.description = self.description.or(other.description);
+        self.nullable = self.nullable.or(other.nullable);
         self.format = self.format.or(other.format);
         self.example = self.example.or(other.example);
         self
-- 
2.43.0


From 1d9259639cf3bcda2b5dddfcb4476b29c3674755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:05 +0000
Subject: [PATCH 08/19] fix: leave skipped fields out of tuple schemas

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index a2c80be..491ed5d 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -594,6 +594,7 @@ where
 {
     let data = fields
         .iter()
+        .filter(|field| !field.attrs.skip_serializing)
         .map(|field| {
             field_model_reference(
                 ContextParams::from(&field.attrs),
-- 
2.43.0


From f456348cfcdcd61b54ecfbbd0af1bb8dee0bb9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:20 +0000
Subject: [PATCH 09/19] fix: describe the declared paths of callbacks named by
 a literal

---
 opg/src/macros.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index cc39526..93cf74e 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -616,14 +616,14 @@ macro_rules! describe_api {
     (@opg_path_value_body_properties $result:ident $description:ident $required:ident $schema:ident $(,)?) => {};
 
     (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($operations:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($other)*,);
+        let mut callback_object = $crate::models::CallbackObject::default();
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($operations)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
     };
     (@opg_path_value_callbacks $result:ident $context:ident $callback:ident: { $($paths:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
+        let mut callback_object = $crate::models::CallbackObject::default();
         $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);
 
-- 
2.43.0


From 112e4e1edddb6a70fd3b85dbf0e786cfa51ccbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:20 +0000
Subject: [PATCH 10/19] fix: accept security schemes declared by a variable
 name

---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 93cf74e..0a07cb6 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -379,7 +379,7 @@ macro_rules! describe_api {
         $crate::describe_api!(@opg_security_scheme $result $($schemes)*,)
     };
     (@opg_security_scheme $result:ident $scheme:ident, $($other:tt)*) => {
-        $result.components.security_schemes.insert(stringity!($scheme).to_owned(), $scheme);
+        $result.components.security_schemes.insert(stringify!($scheme).to_owned(), $scheme);
         $crate::describe_api!(@opg_security_scheme $result $($other)*)
     };
     (@opg_security_scheme $result:ident (http $name:literal): {$($properties:tt)+}, $($other:tt)*) => {
-- 
2.43.0


From 8f8045daa6fd893d1fbe4c37baa6eb28fa07b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:21 +0000
Subject: [PATCH 11/19] fix: accept roles in security requirements

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 0a07cb6..14b5a38 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -594,10 +594,10 @@ macro_rules! describe_api {
 
 
     (@opg_path_value_security_item $result:ident $context:ident $security:literal$([$($role:literal),*])?) => {
-        $context.insert($security.to_owned(), vec![$($($role),*)?])
+        $context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])
     };
     (@opg_path_value_security_item $result:ident $context:ident $security:ident$([$($role:literal),*])?) => {
-        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role),*)?])
+        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role.to_owned()),*)?])
     };
 
 
-- 
2.43.0


From 0a4fe3ebcc4aa460bc00ed8fedf8171ed9f78bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:50 +0000
Subject: [PATCH 12/19] fix: let transparent wrappers refer to the wrapped type
 the way it refers to itself

---
 opg/src/macros.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 14b5a38..94395a9 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -205,6 +205,11 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            #[inline]
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                <T as $crate::OpgModel>::select_reference(cx, inline, params)
+            }
         }
     };
 
-- 
2.43.0


From a663986b69be22b299d3a2934b7e94a6b1eae730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 13/19] fix: reject opg descriptions that are not string
 literals

---
 opg_derive/src/attr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index cf406c5..cf37496 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -110,6 +110,8 @@ impl Container {
                 (AttrFrom::Opg, Lit(lit)) => {
                     if let Ok(s) = get_lit_str_simple(lit) {
                         description.set(lit, s.value().clone());
+                    } else {
+                        cx.error_spanned_by(lit, "expected description to be a string literal")
                     }
                 }
                 (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
@@ -238,6 +240,8 @@ impl Variant {
                 (AttrFrom::Opg, Lit(lit)) => {
                     if let Ok(s) = get_lit_str_simple(lit) {
                         description.set(lit, s.value().clone());
+                    } else {
+                        cx.error_spanned_by(lit, "expected description to be a string literal")
                     }
                 }
                 (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
@@ -363,6 +367,8 @@ impl Field {
                 (AttrFrom::Opg, Lit(lit)) => {
                     if let Ok(s) = get_lit_str_simple(lit) {
                         description.set(lit, s.value().clone());
+                    } else {
+                        cx.error_spanned_by(lit, "expected description to be a string literal")
                     }
                 }
                 (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
-- 
2.43.0


From 6a9ecd220310d518bc75a96d5b15d3d016fa1503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 14/19] fix: describe tuple variants of untagged enums

---
 opg_derive/src/opg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 491ed5d..bdd1591 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -161,6 +161,12 @@ fn serialize_untagged_enum(
 
                 field_model_reference(context_params, field, variant.attrs.inline)
             }
+            StructStyle::Tuple => inline_reference(tuple_model(
+                false,
+                &variant.attrs.description,
+                &variant.fields,
+                |field| variant.attrs.inline || field.attrs.inline,
+            )),
             StructStyle::Struct => inline_reference(object_model(
                 false,
                 &variant.attrs.description,
-- 
2.43.0


From 189b438ee85bea193d7e3a76586445561d6d25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 15/19] fix: honour the nullable attribute of unit enums

---
 opg_derive/src/opg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index bdd1591..a395947 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -76,6 +76,7 @@ fn serialize_enum(container: &Container, variants: &[Variant]) -> proc_macro2::T
 
 fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_macro2::TokenStream {
     let description = option_string(container.attrs.description.as_deref());
+    let nullable = container.attrs.nullable;
 
     let body = if container.attrs.has_repr {
         let variants = variants
@@ -129,7 +130,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             _opg::Model {
                 description: #description,
                 data: _opg::ModelData::Single(_opg::ModelType {
-                    nullable: false,
+                    nullable: #nullable,
                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
                         variants: Some(vec![#(#variants.to_owned()),*]),
                         data: _opg::ModelSimple {
-- 
2.43.0


From 26c27abc860b7cbd390aa38dbfbef920610337fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:32 +0000
Subject: [PATCH 16/19] fix: the inline attribute of a newtype variant's field
 was ignored

---
 opg_derive/src/opg.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index a395947..7206b1f 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -160,7 +160,11 @@ fn serialize_untagged_enum(
                 let field = &variant.fields[0];
                 let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                field_model_reference(context_params, field, variant.attrs.inline)
+                field_model_reference(
+                    context_params,
+                    field,
+                    variant.attrs.inline || field.attrs.inline,
+                )
             }
             StructStyle::Tuple => inline_reference(tuple_model(
                 false,
@@ -212,7 +216,11 @@ fn serialize_adjacent_tagged_enum(
                         let field = &variant.fields[0];
                         let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                        field_model_reference(context_params, field, variant.attrs.inline)
+                        field_model_reference(
+                            context_params,
+                            field,
+                            variant.attrs.inline || field.attrs.inline,
+                        )
                     }
                     StructStyle::Tuple => inline_reference(tuple_model(
                         false,
@@ -337,7 +345,7 @@ fn serialize_external_tagged_enum(
                         field_model_reference(
                             context_params,
                             field,
-                            variant.attrs.inline,
+                            variant.attrs.inline || field.attrs.inline,
                         )
                     },
                     StructStyle::Tuple => {
-- 
2.43.0


From c7c443c893cb86dd684f0d522c1ba290ab5db467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:51 +0000
Subject: [PATCH 17/19] fix: the type and nullable attributes of a newtype
 struct's field were ignored

---
 opg_derive/src/opg.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 7206b1f..325bcf0 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -530,10 +530,16 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let context_params = ContextParams::from(&field.attrs).or(&container.attrs);
 
-    let body = match container.attrs.explicit_model_type {
+    // `any` has no model of its own
+    let field_model_type = match field.attrs.explicit_model_type {
+        Some(ExplicitModelType::Any) => None,
+        explicit_model_type => explicit_model_type,
+    };
+
+    let body = match container.attrs.explicit_model_type.or(field_model_type) {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
             newtype_model(
-                container.attrs.nullable,
+                container.attrs.nullable || field.attrs.nullable,
                 context_params,
                 explicit_model_type,
             )
-- 
2.43.0


From b3d55690d7e8dc2da8ac567dafea26ae0a281b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:08 +0000
Subject: [PATCH 18/19] fix: a path segment named by a type whose name does not
 start with an ASCII letter panicked

---
 opg/src/macros.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 94395a9..4e93ab6 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -734,7 +734,9 @@ macro_rules! describe_api {
             let name = {
                 let full_name = stringify!($current);
                 let name = &full_name[full_name.rfind(':').map(|i| i + 1).unwrap_or_default()..];
-                name[..1].to_ascii_lowercase() + &name[1..]
+                let mut chars = name.chars();
+                let first = chars.next().map(|c| c.to_ascii_lowercase());
+                first.into_iter().chain(chars).collect::<String>()
             };
             $crate::describe_api!(@opg_path_insert_url_param $result $context name $current)
         });
-- 
2.43.0


From 08c989019a1ddc8057381c8ee702c35a0287aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:32 +0000
Subject: [PATCH 19/19] fix: a repr enum without written discriminants was
 described as having no variants

---
 opg_derive/src/opg.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 325bcf0..8136e20 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -82,16 +82,9 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
         let variants = variants
             .iter()
             .filter(|variant| !variant.attrs.skip_serializing)
-            .filter_map(|variant| {
-                variant
-                    .original
-                    .discriminant
-                    .as_ref()
-                    .map(|(_, discriminant)| (variant.attrs.name.serialized(), discriminant))
-            })
-            .map(|(name, discriminant)| {
-                let description = format!("{} variant", name);
-                let example = quote::ToTokens::to_token_stream(discriminant).to_string();
+            .map(|variant| {
+                let ident = &variant.original.ident;
+                let description = format!("{} variant", variant.attrs.name.serialized());
 
                 quote! {
                     _opg::Model {
@@ -100,7 +93,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                             nullable: false,
                             type_description: _opg::ModelTypeDescription::Integer(_opg::ModelSimple {
                                 format: None,
-                                example: Some(#example.to_owned()),
+                                example: Some((Self::#ident as i128).to_string()),
                             })
                         }),
                     }
-- 
2.43.0

