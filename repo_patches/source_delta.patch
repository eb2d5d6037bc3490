From e951e0771ef81679091c3f8c9b7903c4b8d3805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:50 +0000
Subject: [PATCH 01/23] fix: index tuple fields and enum variant fields by
 their position among the reflected fields

With a skipped field before another one, field_at/field_at_mut, patch and
from_reflect of derived tuple structs and enum variants used the declared
position while to_value, fields_len, fields and the type descriptor leave
skipped fields out.
---
 .../src/derive_reflect/enum_.rs               | 17 +++++++------
 .../src/derive_reflect/tuple_struct.rs        | 25 +++++++++++--------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index d0739c3..f3e7856 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -153,7 +153,7 @@ fn expand_reflect(
                     }
                 }
                 FieldsData::Unnamed(fields) => {
-                    let set_fields = fields.iter().enumerate().filter(filter_out_skipped).map(
+                    let set_fields = fields.iter().filter(filter_out_skipped).enumerate().map(
                         |(index, field)| {
                             let ident = &field.fake_ident;
                             quote! {
@@ -407,6 +407,9 @@ fn expand_from_reflect(
             }
             FieldsData::Unnamed(fields) => {
                 let set_fields = fields.iter().enumerate().map(|(idx, field)| {
+                    // skipped fields aren't part of the reflected value, so they don't take up an
+                    // index
+                    let idx = fields[..idx].iter().filter(filter_out_skipped).count();
                     if field.skip() {
                         quote! {
                             ::core::default::Default::default(),
@@ -630,7 +633,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -649,7 +652,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -694,7 +697,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -713,7 +716,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -870,7 +873,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -889,7 +892,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 07d0893..5616f33 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -91,10 +91,11 @@ fn expand_reflect(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, _)| {
+            .enumerate()
+            .map(|(reflect_idx, _)| {
                 quote! {
-                    if let Some(new_value) = tuple_struct.field_at(#idx) {
-                        self.field_at_mut(#idx).unwrap().patch(new_value);
+                    if let Some(new_value) = tuple_struct.field_at(#reflect_idx) {
+                        self.field_at_mut(#reflect_idx).unwrap().patch(new_value);
                     }
                 }
             });
@@ -200,6 +201,8 @@ fn expand_from_reflect(
                 index: idx as u32,
                 span: field.span(),
             };
+            // skipped fields aren't part of the reflected value, so they don't take up an index
+            let reflect_idx = (0..idx).filter(|idx| !field_attrs.skip(idx)).count();
             let ty = &field.ty;
             let span = ty.span();
             if field_attrs.skip(&idx) {
@@ -209,21 +212,21 @@ fn expand_from_reflect(
             } else if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_idx)?;
                         #from_reflect_with(value)?
                     }
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_idx)?;
                         <#ty as FromReflect>::from_reflect(value)?
                     },
                 }
             } else {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_idx)?;
                         if let Some(value) = value.downcast_ref::<#ty>() {
                             value.to_owned()
                         } else {
@@ -269,13 +272,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflect_idx, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect()),
+                    #reflect_idx => Some(self.#field_index.as_reflect()),
                 }
             });
 
@@ -294,13 +298,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflect_idx, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect_mut()),
+                    #reflect_idx => Some(self.#field_index.as_reflect_mut()),
                 }
             });
 
-- 
2.43.0


From fa6f80b474e7eb1cfa6933de618b3a53043eb8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 02/23] fix: describe directly recursive tuple structs and
 enums without overflowing the stack

The fields and variants were described before the type's own placeholder was
in the graph, so a type that contains itself recursed forever.
---
 crates/mirror-mirror-macros/src/derive_reflect/enum_.rs        | 2 +-
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index f3e7856..b80e229 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -112,8 +112,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let variants = &[#(#code_for_variants),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let variants = &[#(#code_for_variants),*];
                     EnumNode::new::<Self>(variants, #meta, #docs)
                 })
             }
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 5616f33..2759eed 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -70,8 +70,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let fields = &[#(#code_for_fields),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let fields = &[#(#code_for_fields),*];
                     TupleStructNode::new::<Self>(fields, #meta, #docs)
                 })
             }
-- 
2.43.0


From 6ffc7cc4b4494f6ebe9a29483cf42b2ca0482a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 03/23] fix: allow from_reflect_with on a tuple struct field
 that isn't the last

The generated field initializer lacked its trailing comma.
---
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 2759eed..960d57c 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -214,7 +214,7 @@ fn expand_from_reflect(
                     #field_index: {
                         let value = tuple_struct.field_at(#reflect_idx)?;
                         #from_reflect_with(value)?
-                    }
+                    },
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
-- 
2.43.0


From fb844acc457cc2dbe6eba46629b6912c837acb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:49 +0000
Subject: [PATCH 04/23] fix: don't let the fields of a derived struct variant
 shadow the generated code's variables

A field called `name` made field and field_mut compare against the field's
value, and fields called `index`, `value`, `enum_` or `variant_matches`
failed to compile.
---
 .../src/derive_reflect/enum_.rs               | 63 +++++++++++--------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index b80e229..64e5f5f 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -1,5 +1,3 @@
-use alloc::borrow::Cow;
-
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::DataEnum;
@@ -135,8 +133,8 @@ fn expand_reflect(
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = field.ident;
-                        let ident_string = stringify(ident);
+                        let ident_string = stringify(field.ident);
+                        let ident = &field.fake_ident;
                         quote! {
                             if let Some(new_value) = enum_.field(#ident_string) {
                                 #ident.patch(new_value);
@@ -228,8 +226,8 @@ fn expand_reflect(
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let ident_string = stringify(ident);
+                        let ident_string = stringify(field.ident);
+                        let ident = &field.fake_ident;
                         quote! {
                             value.set_struct_field(#ident_string, #ident.to_value());
                         }
@@ -538,8 +536,8 @@ fn expand_enum(
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let ident_string = stringify(field.ident);
+                            let ident = &field.fake_ident;
                             quote! {
                                 if name == #ident_string {
                                     return Some(#ident);
@@ -586,8 +584,8 @@ fn expand_enum(
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let ident_string = stringify(field.ident);
+                            let ident = &field.fake_ident;
                             quote! {
                                 if name == #ident_string {
                                     return Some(#ident);
@@ -635,7 +633,7 @@ fn expand_enum(
                         let return_if_index_matches =
                             fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let field_name = &field.fake_ident;
                                     quote! {
                                         if #idx == index {
                                             return Some(#field_name.as_reflect());
@@ -699,7 +697,7 @@ fn expand_enum(
                         let return_if_index_matches =
                             fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let field_name = &field.fake_ident;
                                     quote! {
                                         if #idx == index {
                                             return Some(#field_name.as_reflect_mut());
@@ -770,8 +768,8 @@ fn expand_enum(
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let code_for_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let field = stringify(ident);
+                        let ident = &field.fake_ident;
+                        let field = stringify(field.ident);
                         quote! {
                             (#field, #ident.as_reflect_mut()),
                         }
@@ -966,12 +964,19 @@ impl<'a> VariantData<'a> {
                         let fields = fields
                             .named
                             .iter()
-                            .map(|field| {
+                            .enumerate()
+                            .map(|(index, field)| {
                                 let ident = field.ident.as_ref().unwrap();
                                 let ty = &field.ty;
                                 let attrs = InnerAttrs::parse(&field.attrs)?;
+                                let fake_ident = quote::format_ident!("field_{index}");
 
-                                Ok(NamedField { ident, ty, attrs })
+                                Ok(NamedField {
+                                    ident,
+                                    ty,
+                                    attrs,
+                                    fake_ident,
+                                })
                             })
                             .collect::<syn::Result<Vec<_>>>()?;
 
@@ -1013,17 +1018,22 @@ impl<'a> VariantData<'a> {
 }
 
 impl<'a> VariantData<'a> {
-    fn field_names<'this>(&'this self) -> Box<dyn Iterator<Item = Cow<'a, Ident>> + 'this> {
+    /// The patterns that bind each field to its `fake_ident`.
+    ///
+    /// Named fields aren't bound to their own names since those might shadow the other variables
+    /// used in the generated code.
+    fn field_names<'this>(&'this self) -> Box<dyn Iterator<Item = TokenStream> + 'this> {
         match &self.fields {
-            FieldsData::Named(fields) => {
-                Box::new(fields.iter().map(|field| Cow::Borrowed(field.ident)))
-            }
-            FieldsData::Unnamed(fields) => Box::new(
-                fields
-                    .iter()
-                    .enumerate()
-                    .map(|(index, _)| Cow::Owned(quote::format_ident!("field_{index}"))),
-            ),
+            FieldsData::Named(fields) => Box::new(fields.iter().map(|field| {
+                let NamedField {
+                    ident, fake_ident, ..
+                } = field;
+                quote! { #ident: #fake_ident }
+            })),
+            FieldsData::Unnamed(fields) => Box::new(fields.iter().map(|field| {
+                let fake_ident = &field.fake_ident;
+                quote! { #fake_ident }
+            })),
             FieldsData::Unit => Box::new(core::iter::empty()),
         }
     }
@@ -1039,6 +1049,7 @@ struct NamedField<'a> {
     ident: &'a Ident,
     ty: &'a Type,
     attrs: InnerAttrs,
+    fake_ident: Ident,
 }
 
 impl<'a> NamedField<'a> {
-- 
2.43.0


From 85b2d8a6ad612f594b37ad51fab8d95ca308bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 05/23] fix: setting a StructValue field again replaces it
 instead of adding it twice

set_field pushed the name onto the list of field names each time, so
fields_len, fields and field_at reported the field more than once.
---
 crates/mirror-mirror/src/struct_.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index d45c974..164de40 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -74,8 +74,9 @@ impl StructValue {
 
     pub fn set_field(&mut self, name: impl Into<String>, value: impl Into<Value>) {
         let name = name.into();
-        self.field_names.push(name.clone());
-        self.fields.insert(name, value.into());
+        if self.fields.insert(name.clone(), value.into()).is_none() {
+            self.field_names.push(name);
+        }
     }
 }
 
-- 
2.43.0


From 6c6156a438d58be325355ad003ff66f7c152ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:29 +0000
Subject: [PATCH 06/23] fix: StructValue::fields_mut yields the fields in the
 same order as fields

fields_mut yielded them sorted by name rather than in the order they were set.
---
 crates/mirror-mirror/src/struct_.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index 164de40..6620f52 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -144,10 +144,16 @@ impl Struct for StructValue {
     }
 
     fn fields_mut(&mut self) -> PairIterMut<'_> {
-        let iter = self
+        let mut fields = self
             .fields
             .iter_mut()
-            .map(|(key, value)| (&**key, value.as_reflect_mut()));
+            .map(|(key, value)| (&**key, value))
+            .collect::<BTreeMap<_, _>>();
+        let iter = self.field_names.iter().filter_map(move |name| {
+            let name = &**name;
+            let value = fields.remove(name)?;
+            Some((name, value.as_reflect_mut()))
+        });
         Box::new(iter)
     }
 
-- 
2.43.0


From 8ccce594595ed58110d37f4ce4a27107776f90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:38 +0000
Subject: [PATCH 07/23] fix: the exact size iterators report how many items
 remain

len returned the total number of items no matter how many had already been
yielded, and size_hint wasn't exact.
---
 crates/mirror-mirror/src/array.rs        | 7 ++++++-
 crates/mirror-mirror/src/struct_.rs      | 7 ++++++-
 crates/mirror-mirror/src/tuple.rs        | 7 ++++++-
 crates/mirror-mirror/src/tuple_struct.rs | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/array.rs b/crates/mirror-mirror/src/array.rs
index b158686..5d8f5f1 100644
--- a/crates/mirror-mirror/src/array.rs
+++ b/crates/mirror-mirror/src/array.rs
@@ -45,11 +45,16 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.array.len()
+        self.array.len().saturating_sub(self.index)
     }
 }
 
diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index 6620f52..46d7935 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -226,11 +226,16 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some((name, value))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.struct_.fields_len()
+        self.struct_.fields_len().saturating_sub(self.index)
     }
 }
 
diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index dfc2f24..2935501 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -339,11 +339,16 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.tuple.fields_len()
+        self.tuple.fields_len().saturating_sub(self.index)
     }
 }
 
diff --git a/crates/mirror-mirror/src/tuple_struct.rs b/crates/mirror-mirror/src/tuple_struct.rs
index 35956fd..234b666 100644
--- a/crates/mirror-mirror/src/tuple_struct.rs
+++ b/crates/mirror-mirror/src/tuple_struct.rs
@@ -190,11 +190,16 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.tuple_struct.fields_len()
+        self.tuple_struct.fields_len().saturating_sub(self.index)
     }
 }
 
-- 
2.43.0


From 2f30b0ee469c2e50d5c90951693f3583a866c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:48 +0000
Subject: [PATCH 08/23] fix: key path indices that don't fit in a usize don't
 resolve

Negative and too large indices wrapped around, so `[2^64 + 1]` and `[-2^64]`
resolved to elements at other positions.
---
 crates/mirror-mirror/src/key_path.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 250cf6f..2967178 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -570,14 +570,14 @@ pub(crate) fn value_to_usize(value: &Value) -> Option<usize> {
         Value::usize(n) => Some(*n),
         Value::u8(n) => Some(*n as usize),
         Value::u16(n) => Some(*n as usize),
-        Value::u32(n) => Some(*n as usize),
-        Value::u64(n) => Some(*n as usize),
-        Value::u128(n) => Some(*n as usize),
-        Value::i8(n) => Some(*n as usize),
-        Value::i16(n) => Some(*n as usize),
-        Value::i32(n) => Some(*n as usize),
-        Value::i64(n) => Some(*n as usize),
-        Value::i128(n) => Some(*n as usize),
+        Value::u32(n) => (*n).try_into().ok(),
+        Value::u64(n) => (*n).try_into().ok(),
+        Value::u128(n) => (*n).try_into().ok(),
+        Value::i8(n) => (*n).try_into().ok(),
+        Value::i16(n) => (*n).try_into().ok(),
+        Value::i32(n) => (*n).try_into().ok(),
+        Value::i64(n) => (*n).try_into().ok(),
+        Value::i128(n) => (*n).try_into().ok(),
         Value::bool(_)
         | Value::char(_)
         | Value::f32(_)
-- 
2.43.0


From 6ecc218e781735309026ca9424677e18894d75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:21 +0000
Subject: [PATCH 09/23] fix: get_field on a Value finds enum fields by a String
 key

It did for `&str` keys, and for `String` keys on structs.
---
 crates/mirror-mirror/src/get_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/get_field.rs b/crates/mirror-mirror/src/get_field.rs
index 2fb8276..e3e1285 100644
--- a/crates/mirror-mirror/src/get_field.rs
+++ b/crates/mirror-mirror/src/get_field.rs
@@ -99,9 +99,9 @@ where
             match self.reflect_ref() {
                 ReflectRef::Map(inner) => inner.get_field(key.to_owned()),
                 ReflectRef::Struct(inner) => inner.get_field(key),
+                ReflectRef::Enum(inner) => inner.get_field(key.as_str()),
                 ReflectRef::TupleStruct(_)
                 | ReflectRef::Tuple(_)
-                | ReflectRef::Enum(_)
                 | ReflectRef::List(_)
                 | ReflectRef::Array(_)
                 | ReflectRef::Opaque(_)
@@ -145,9 +145,9 @@ where
             match self.reflect_mut() {
                 ReflectMut::Map(inner) => inner.get_field_mut(key.to_owned()),
                 ReflectMut::Struct(inner) => inner.get_field_mut(key),
+                ReflectMut::Enum(inner) => inner.get_field_mut(key.as_str()),
                 ReflectMut::TupleStruct(_)
                 | ReflectMut::Tuple(_)
-                | ReflectMut::Enum(_)
                 | ReflectMut::List(_)
                 | ReflectMut::Array(_)
                 | ReflectMut::Opaque(_)
-- 
2.43.0


From 842e38e1171b05f8be9c2ec2918e8a12dbad608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:27 +0000
Subject: [PATCH 10/23] fix: don't panic converting a negative, too large or
 NaN number to a Duration

Duration::from_reflect and patch panicked on such inputs instead of rejecting
them.
---
 crates/mirror-mirror/src/foreign_impls/via_scalar.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
index 7364526..da91ae8 100644
--- a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
+++ b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
@@ -97,7 +97,12 @@ impl_reflect_via_scalar! { NonZeroI32,   i32,   |n: &NonZeroI32| n.get(),   Self
 impl_reflect_via_scalar! { NonZeroI64,   i64,   |n: &NonZeroI64| n.get(),   Self::new }
 impl_reflect_via_scalar! { NonZeroI128,  i128,  |n: &NonZeroI128| n.get(),  Self::new }
 
-impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), Self::from_secs_f32 }
+impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), duration_from_secs_f32 }
+
+// `Duration::from_secs_f32` panics on values that aren't in this range
+fn duration_from_secs_f32(secs: f32) -> Option<Duration> {
+    (secs >= 0.0 && secs < u64::MAX as f32).then(|| Duration::from_secs_f32(secs))
+}
 
 trait IntoOption<T> {
     fn into_option(self) -> Option<T>;
-- 
2.43.0


From 135b674a210be9368df0762dcfaab7a29032673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:35 +0000
Subject: [PATCH 11/23] fix: convert and patch arrays from both arrays and
 lists

from_reflect only accepted lists, so it rejected arrays of the same type, and
patch only accepted arrays, so patching with the array's own to_value did
nothing.
---
 .../mirror-mirror/src/foreign_impls/array.rs  | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index 5dcec66..f434e99 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -44,8 +44,8 @@ where
     }
 
     fn patch(&mut self, value: &dyn Reflect) {
-        if let Some(array) = value.reflect_ref().as_array() {
-            for (idx, new_value) in array.iter().enumerate() {
+        if let Some(iter) = iter_array_or_list(value) {
+            for (idx, new_value) in iter.enumerate() {
                 if let Some(value) = self.get_mut(idx) {
                     value.patch(new_value);
                 }
@@ -108,7 +108,20 @@ where
     T: FromReflect + DescribeType,
 {
     fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
-        Vec::<T>::from_reflect(reflect)?.try_into().ok()
+        iter_array_or_list(reflect)?
+            .map(T::from_reflect)
+            .collect::<Option<Vec<T>>>()?
+            .try_into()
+            .ok()
+    }
+}
+
+/// `Value` represents arrays as lists so both can be converted to an array.
+fn iter_array_or_list(reflect: &dyn Reflect) -> Option<crate::array::Iter<'_>> {
+    match reflect.reflect_ref() {
+        ReflectRef::Array(array) => Some(array.iter()),
+        ReflectRef::List(list) => Some(list.iter()),
+        _ => None,
     }
 }
 
-- 
2.43.0


From 4d839f9d75deed1ec5dfa6e49c462e691aacedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 12/23] fix: clone_reflect on containers clones the elements
 exactly

It went via to_value, which is lossy for Duration: clones of a
`Vec<Duration>` or `Option<Duration>` differed from the original, a clone of
a `BTreeMap<Duration, _>` could have fewer entries, and cloning
`vec![Duration::MAX]` panicked.
---
 crates/mirror-mirror-macros/src/derive_reflect/attrs.rs | 3 +--
 crates/mirror-mirror/src/foreign_impls/array.rs         | 3 +--
 crates/mirror-mirror/src/foreign_impls/btree_map.rs     | 3 +--
 crates/mirror-mirror/src/foreign_impls/vec.rs           | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
index 143adcf..fdc64e9 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
@@ -150,8 +150,7 @@ impl ItemAttrs {
         if self.clone_opt_out {
             quote! {
                 fn clone_reflect(&self) -> Box<dyn Reflect> {
-                    let value = self.to_value();
-                    Box::new(Self::from_reflect(&value).unwrap())
+                    Box::new(Self::from_reflect(self).unwrap())
                 }
             }
         } else {
diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index f434e99..fa40218 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -59,8 +59,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/crates/mirror-mirror/src/foreign_impls/btree_map.rs b/crates/mirror-mirror/src/foreign_impls/btree_map.rs
index 3afed9a..ed2b633 100644
--- a/crates/mirror-mirror/src/foreign_impls/btree_map.rs
+++ b/crates/mirror-mirror/src/foreign_impls/btree_map.rs
@@ -117,8 +117,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/crates/mirror-mirror/src/foreign_impls/vec.rs b/crates/mirror-mirror/src/foreign_impls/vec.rs
index 2675b45..3afbd12 100644
--- a/crates/mirror-mirror/src/foreign_impls/vec.rs
+++ b/crates/mirror-mirror/src/foreign_impls/vec.rs
@@ -107,8 +107,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-- 
2.43.0


From a5c8dcd0fd8c54e3735f7290bf94c9353f8da46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 13/23] fix: has_default_value is true for empty arrays

default_value returns an empty list for them no matter the element type.
---
 crates/mirror-mirror/src/type_info/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 478c756..c7593c8 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1269,7 +1269,7 @@ impl<'a> ArrayType<'a> {
     }
 
     pub fn has_default_value(&self) -> bool {
-        self.element_type().has_default_value()
+        self.is_empty() || self.element_type().has_default_value()
     }
 }
 
-- 
2.43.0


From 7d114eac6c3a92ab27dfff0cb587d89b14d3a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:41 +0000
Subject: [PATCH 14/23] fix: expose the metadata and docs of a variant looked
 up by key path

TypeAtPath ignored those of variants.
---
 crates/mirror-mirror/src/type_info/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index c7593c8..c0d763a 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1399,9 +1399,9 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.meta(key),
             TypeAtPath::TupleStruct(inner) => inner.meta(key),
             TypeAtPath::Enum(inner) => inner.meta(key),
+            TypeAtPath::Variant(inner) => inner.meta(key),
             TypeAtPath::Opaque(inner) => inner.meta(key),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
@@ -1414,8 +1414,8 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.docs(),
             TypeAtPath::TupleStruct(inner) => inner.docs(),
             TypeAtPath::Enum(inner) => inner.docs(),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Variant(inner) => inner.docs(),
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
-- 
2.43.0


From a3d53946e7437be6ccf15af29117274fbee9ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:49 +0000
Subject: [PATCH 15/23] fix: debug formatting a tuple shows its fields

It printed the name of the tuple's type.
---
 crates/mirror-mirror/src/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index 2935501..e10bdac 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -6,6 +6,7 @@ use core::fmt::Debug;
 use core::iter::FusedIterator;
 
 use crate::iter::ValueIterMut;
+use crate::reflect_debug;
 use crate::type_info::graph::NodeId;
 use crate::type_info::graph::OpaqueNode;
 use crate::type_info::graph::TupleNode;
@@ -205,7 +206,7 @@ macro_rules! impl_tuple {
             }
 
             fn debug(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-                write!(f, "{}", core::any::type_name::<Self>())
+                reflect_debug(self, f)
             }
 
             fn reflect_owned(self: Box<Self>) -> ReflectOwned {
-- 
2.43.0


From b8ca29082c5072cf3a0c093a4d5889407c6546a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:16 +0000
Subject: [PATCH 16/23] fix: iterators over a key path announce how many keys
 they yield

---
 crates/mirror-mirror/src/key_path.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 2967178..b5726a0 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -313,6 +313,10 @@ impl Iterator for IntoIter {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for IntoIter {
@@ -347,6 +351,10 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
-- 
2.43.0


From 0bda8de3c974458d372fe37fbfc2710f3c709222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:39 +0000
Subject: [PATCH 17/23] fix: debug formatting the empty tuple shows it

---
 crates/mirror-mirror/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mirror-mirror/src/lib.rs b/crates/mirror-mirror/src/lib.rs
index 2675667..fe348bf 100644
--- a/crates/mirror-mirror/src/lib.rs
+++ b/crates/mirror-mirror/src/lib.rs
@@ -1231,6 +1231,9 @@ pub fn reflect_debug(value: &dyn Reflect, f: &mut core::fmt::Formatter<'_>) -> c
             f.finish()
         }
         ReflectRef::Tuple(inner) => {
+            if inner.fields_len() == 0 {
+                return f.write_str("()");
+            }
             let mut f = f.debug_tuple("");
             for field in inner.fields() {
                 f.field(&field as &dyn ::core::fmt::Debug);
-- 
2.43.0


From 1e737265fefc4fe760a6b936a38573ded86e6647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:34 +0000
Subject: [PATCH 18/23] fix: debug formatting a box shows its content's own
 debug text

---
 crates/mirror-mirror/src/foreign_impls/boxed.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/boxed.rs b/crates/mirror-mirror/src/foreign_impls/boxed.rs
index 5387ffd..cfcd2cd 100644
--- a/crates/mirror-mirror/src/foreign_impls/boxed.rs
+++ b/crates/mirror-mirror/src/foreign_impls/boxed.rs
@@ -3,7 +3,6 @@ use alloc::boxed::Box;
 use core::any::Any;
 use core::fmt;
 
-use crate::reflect_debug;
 use crate::type_info::graph::NodeId;
 use crate::type_info::graph::TypeGraph;
 use crate::DescribeType;
@@ -73,7 +72,7 @@ where
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        reflect_debug(self, f)
+        <T as Reflect>::debug(self, f)
     }
 }
 
-- 
2.43.0


From ec47d85e8de68c055fa282eab68a849dcd30ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 19/23] fix: the fields of a tuple variant have no names

---
 .../src/derive_reflect/enum_.rs               | 22 +++----------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 64e5f5f..20f6ef6 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -888,25 +888,9 @@ fn expand_enum(
                             },
                         }
                     }
-                    FieldsData::Unnamed(fields) => {
-                        let return_if_index_matches =
-                            fields.iter().filter(filter_out_skipped).enumerate().map(
-                                |(idx, field)| {
-                                    let field_name = &field.fake_ident;
-                                    quote! {
-                                        if #idx == index {
-                                            return Some(::core::stringify!(#field_name));
-                                        }
-                                    }
-                                },
-                            );
-
-                        quote! {
-                            Self::#variant_ident(#(#field_names,)*) => {
-                                #(#return_if_index_matches)*
-                            },
-                        }
-                    }
+                    FieldsData::Unnamed(_) => quote! {
+                        Self::#variant_ident(..) => {},
+                    },
                     FieldsData::Unit => quote! {
                         Self::#variant_ident => {},
                     },
-- 
2.43.0


From 9ad9881ac386a28ec678ef66d6723fd5389d2956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:39 +0000
Subject: [PATCH 20/23] fix: do not hold the type descriptor lock while
 building a description

---
 crates/mirror-mirror/src/type_info/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index c0d763a..6c998af 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -65,13 +65,16 @@ pub trait DescribeType: 'static {
                 return Cow::Borrowed(info);
             }
 
+            // build without holding the lock: metadata and default values are user expressions
+            // that might themselves ask for type descriptors
+            let mut graph = TypeGraph::default();
+            let id = Self::build(&mut graph);
+            let info = TypeDescriptor::new(id, graph);
+
             let mut map = lock.write().unwrap();
-            let info = map.entry(type_id).or_insert_with(|| {
-                let mut graph = TypeGraph::default();
-                let id = Self::build(&mut graph);
-                let info = TypeDescriptor::new(id, graph);
-                Box::leak(Box::new(info))
-            });
+            let info = map
+                .entry(type_id)
+                .or_insert_with(|| Box::leak(Box::new(info)));
             Cow::Borrowed(*info)
         }
 
-- 
2.43.0


From 53a064583a139d12fecdd86534c9409710a4cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 21/23] fix: keep leading underscores in simple type names

The path separator before every underscore was removed, to drop unnamed constants
from paths: a type `_Foo` in `bar` was shown as `barFoo`.
---
 .../mirror-mirror/src/type_info/simple_type_name.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 5ca6ef2..3184507 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -78,13 +78,13 @@ pub struct SimpleTypeName {
 
 impl SimpleTypeName {
     pub fn new(type_name: &str) -> Option<Self> {
-        const UNNAMED_CONST_PATH: &str = "::_";
+        // only whole segments, other names might also start with an underscore
+        const UNNAMED_CONST_PATH: &str = "::_::";
 
-        let type_name = if type_name.contains(UNNAMED_CONST_PATH) {
-            Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, ""))
-        } else {
-            Cow::Borrowed(type_name)
-        };
+        let mut type_name = Cow::Borrowed(type_name);
+        while type_name.contains(UNNAMED_CONST_PATH) {
+            type_name = Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, "::"));
+        }
 
         let ty = syn::parse_str::<Type>(&type_name).ok()?;
         Some(Self { ty })
-- 
2.43.0


From c1386a4b99486e88d8c32c8a0c7001edae7ccaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 22/23] fix: pretty print types whose name can't be simplified

`SimpleTypeName` can't be written for all names that it parses, such as those with a
`char` const argument, and formatting the description of such a type panicked. Fall
back to the full name like for names that it doesn't parse.
---
 crates/mirror-mirror/src/type_info/pretty_print.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/pretty_print.rs b/crates/mirror-mirror/src/type_info/pretty_print.rs
index 7b794c6..ad39fb0 100644
--- a/crates/mirror-mirror/src/type_info/pretty_print.rs
+++ b/crates/mirror-mirror/src/type_info/pretty_print.rs
@@ -52,10 +52,13 @@ impl<'a> PrettyPrintRoot for Type<'a> {
 #[cfg(feature = "std")]
 fn simple_type_name_fmt(type_name: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
     if let Some(name) = super::SimpleTypeName::new(type_name) {
-        write!(f, "{name}")
-    } else {
-        f.write_str(type_name)
+        // some types can be parsed but not written
+        let mut buf = alloc::string::String::new();
+        if write!(buf, "{name}").is_ok() {
+            return f.write_str(&buf);
+        }
     }
+    f.write_str(type_name)
 }
 
 #[cfg(not(feature = "std"))]
-- 
2.43.0


From ba1ad875ae919d53cff09548432d90364629c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 23/23] fix: leave lifetimes out of simple type names

Newer compilers include them in type names (`Foo<'_, 10>`), and writing such a name
failed. Makes `tests::simple_type_name::works` pass.
---
 crates/mirror-mirror/src/type_info/simple_type_name.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 3184507..6486571 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -295,8 +295,15 @@ impl<'a, 'b> WriteAst<AngleBracketedGenericArguments> for TypeWriter<'a, 'b> {
             args,
             gt_token: _,
         } = args;
+        // newer compilers include lifetimes in type names
+        let mut args = args
+            .iter()
+            .filter(|arg| !matches!(arg, GenericArgument::Lifetime(_)))
+            .peekable();
+        if args.peek().is_none() {
+            return Ok(());
+        }
         write!(self.f, "<")?;
-        let mut args = args.iter().peekable();
         while let Some(arg) = args.next() {
             self.write(arg)?;
             if args.peek().is_some() {
-- 
2.43.0

