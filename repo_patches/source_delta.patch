From 77b91b0bd6e9c21e4d809bf2e2e309e14b03678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 01/14] fix: build the try_setter name without the
 raw-identifier prefix

`try_setter` on a field such as `r#type` formatted the identifier with its
`r#` prefix and made the derive panic ("`try_r#type` is not a valid identifier").
---
 derive_builder_core/src/setter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 392221f..d8a399a 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -2,7 +2,7 @@
 use std::borrow::Cow;
 
 use proc_macro2::{Span, TokenStream};
-use quote::{ToTokens, TokenStreamExt};
+use quote::{format_ident, ToTokens, TokenStreamExt};
 
 use crate::{BuilderFieldType, BuilderPattern, Each};
 
@@ -149,7 +149,7 @@ impl<'a> ToTokens for Setter<'a> {
             if self.try_setter {
                 let try_ty_params =
                     quote!(<VALUE: #crate_root::export::core::convert::TryInto<#ty>>);
-                let try_ident = syn::Ident::new(&format!("try_{}", ident), Span::call_site());
+                let try_ident = format_ident!("try_{}", ident, span = Span::call_site());
 
                 let mut converted = quote! {converted};
                 if builder_field_is_option {
-- 
2.43.0


From 9c9be7e0c5da8101622be77789cf691c48f4ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 02/14] fix: setter(custom = false) must not re-enable a
 skipped setter

`custom = false` was taken as "emit the setter" even when the setter (and with
it the builder field) is skipped, so `setter(skip, custom = false)` made the
derive panic. Explicitly not having a custom setter now means the usual rules.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 3894b78..1a85807 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -262,8 +262,8 @@ impl FieldLevelSetter {
     /// Get whether the setter should be emitted. The rules are the same as
     /// for `field_enabled`, except we only skip the setter if `setter(custom)` is present.
     pub fn setter_enabled(&self) -> Option<bool> {
-        if self.custom.is_some() {
-            return self.custom.map(|x| !x);
+        if self.custom == Some(true) {
+            return Some(false);
         }
 
         self.field_enabled()
-- 
2.43.0


From c8425f767f81fb5f5bd1a98ec34746b2a7b48a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 03/14] fix: report malformed pass-through attributes instead
 of panicking

`#[builder_field_attr()]` or `#[builder_setter_attr(a, b)]` is not one
attribute; the derive panicked in `parse_quote_spanned!` on it. It now emits a
compile error located at the attribute.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 1a85807..abe4d73 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -6,7 +6,8 @@ use crate::BuildMethod;
 use darling::util::{Flag, PathList, SpannedValue};
 use darling::{Error, FromMeta};
 use proc_macro2::Span;
-use syn::{spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
+use quote::quote_spanned;
+use syn::{parse::Parser, spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
 
 use crate::{
     BlockContents, Builder, BuilderField, BuilderFieldType, BuilderPattern, DefaultExpression,
@@ -484,7 +485,10 @@ fn unnest_from_one_attribute(attr: syn::Attribute) -> darling::Result<Attribute>
         Meta::NameValue(_) => Err(Error::unsupported_format("name-value").with_span(&meta)),
         Meta::List(list) => {
             let inner = list.tokens;
-            Ok(parse_quote_spanned!(original_span=> #pound [ #inner ]))
+            Attribute::parse_outer
+                .parse2(quote_spanned!(original_span=> #pound [ #inner ]))?
+                .pop()
+                .ok_or_else(|| Error::custom("expected an attribute").with_span(&original_span))
         }
     }
 }
-- 
2.43.0


From 445157380bd90b289ce4d542f68ffcdaa9542aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 04/14] fix: initialize fields according to the build method's
 own pattern

A field-level pattern only concerns that field's setters, but it also decided
whether `build` moves or clones the field: `pattern = "owned"` on a field of a
mutable builder moved out of `&self` and did not compile (E0507), and
`pattern = "mutable"` on a field of an owned builder cloned needlessly.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index abe4d73..821de1e 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -887,7 +887,9 @@ impl<'a> FieldWithDefaults<'a> {
             crate_root: &self.parent.crate_root,
             field_enabled: self.field_enabled(),
             field_ident: self.field_ident(),
-            builder_pattern: self.pattern(),
+            // The build method's receiver follows the struct's pattern, whatever pattern
+            // the field's own setter uses.
+            builder_pattern: self.parent.pattern,
             default_value: self.field.default.as_ref(),
             use_default_struct: self.use_parent_default(),
             conversion: self.conversion(),
-- 
2.43.0


From b328ba1d3a29000f4e67938744316869e3b8ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 05/14] fix: bound type parameters by Clone when a field's
 setter is immutable

An immutable-pattern setter on a field of an owned generic builder clones the
builder, but the impl block had no `Clone` bounds, so it did not compile.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 821de1e..6d7c047 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -663,7 +663,16 @@ impl Options {
             crate_root: &self.crate_root,
             enabled: true,
             ident: self.builder_ident(),
-            pattern: self.pattern,
+            // A setter using the immutable pattern clones the whole builder, so one of those
+            // on a field makes the impl need the same bounds as an immutable builder.
+            pattern: if self
+                .fields()
+                .any(|f| f.setter_enabled() && f.pattern() == BuilderPattern::Immutable)
+            {
+                BuilderPattern::Immutable
+            } else {
+                self.pattern
+            },
             derives: &self.derive,
             struct_attrs: &self.attrs.struct_attrs,
             impl_attrs: &self.attrs.impl_attrs,
-- 
2.43.0


From 933782dd5ca807a485f7d9f37b80483dfc54806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 06/14] fix: make setter(each) work with a custom builder field
 type

The each-setter always unwrapped the builder's Option, which does not exist
when `field(ty = ...)` replaces the field type, so the combination never compiled.
---
 derive_builder_core/src/setter.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index d8a399a..174cb7e 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -176,17 +176,18 @@ impl<'a> ToTokens for Setter<'a> {
                 let ident_each = &each.name;
 
                 // Access the collection to extend, initialising with default value if necessary.
-                let get_initialized_collection = if stripped_option {
+                let get_initialized_collection = match (builder_field_is_option, stripped_option) {
                     // Outer (builder) Option -> Inner (field) Option -> collection.
-                    quote!(get_or_insert_with(|| Some(
+                    (true, true) => quote!(.get_or_insert_with(|| Some(
                         #crate_root::export::core::default::Default::default()
                     ))
-                    .get_or_insert_with(#crate_root::export::core::default::Default::default))
-                } else {
-                    // Outer (builder) Option -> collection.
-                    quote!(get_or_insert_with(
+                    .get_or_insert_with(#crate_root::export::core::default::Default::default)),
+                    // Only one Option, either of the builder or of a custom builder field type.
+                    (true, false) | (false, true) => quote!(.get_or_insert_with(
                         #crate_root::export::core::default::Default::default
-                    ))
+                    )),
+                    // A custom builder field type which is the collection itself.
+                    (false, false) => quote!(),
                 };
 
                 let ty_params: TokenStream;
@@ -212,7 +213,7 @@ impl<'a> ToTokens for Setter<'a> {
                     {
                         let mut new = #self_into_return_ty;
                         new.#field_ident
-                            .#get_initialized_collection
+                            #get_initialized_collection
                             .extend(#crate_root::export::core::option::Option::Some(#into_item));
                         new
                     }
-- 
2.43.0


From 8e5f188de460a241f03b87dabe940742eb6676d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 07/14] fix: apply strip_option to types that come from a macro
 fragment

A `$ty:ty` fragment reaches the derive as an invisible group, so
`strip_option` was silently ignored for a struct defined by such a macro.
---
 derive_builder_core/src/setter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 174cb7e..b6f72f5 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -241,6 +241,8 @@ fn extract_type_from_option(ty: &syn::Type) -> Option<&syn::Type> {
     fn extract_type_path(ty: &syn::Type) -> Option<&Path> {
         match *ty {
             syn::Type::Path(ref typepath) if typepath.qself.is_none() => Some(&typepath.path),
+            // A `$ty:ty` macro fragment arrives wrapped in an invisible group.
+            syn::Type::Group(ref group) => extract_type_path(&group.elem),
             _ => None,
         }
     }
-- 
2.43.0


From e0609fb4271e5814b050b9fa51eb2f0f3c851e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 08/14] fix: reject unions with a compile error instead of
 panicking

---
 derive_builder_core/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index 6d2e71e..c666e78 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -55,6 +55,13 @@ const DEFAULT_STRUCT_NAME: &str = "__default";
 
 /// Derive a builder for a struct
 pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
+    // darling considers unions unreachable and would panic on them.
+    if let syn::Data::Union(ref data) = ast.data {
+        return darling::Error::unsupported_shape_with_expected("union", &"struct with named fields")
+            .with_span(&data.union_token)
+            .write_errors();
+    }
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
-- 
2.43.0


From 4fc124c41a7fe519f0d68bf94b953859f03e233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 09/14] fix: allow a line comment at the end of a quoted
 expression

---
 derive_builder_core/src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 0d53cba..fcb2550 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -34,7 +34,8 @@ impl TryFrom<&'_ LitStr> for BlockContents {
     fn try_from(s: &LitStr) -> Result<Self, Self::Error> {
         let mut block_str = s.value();
         block_str.insert(0, '{');
-        block_str.push('}');
+        // A line comment at the end of the expression must not swallow the brace.
+        block_str.push_str("\n}");
         LitStr::new(&block_str, s.span()).parse().map(Self)
     }
 }
-- 
2.43.0


From 81874abcd1bcbaea6c44cc880a630a7af01e0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 10/14] fix: call Extend of an each-setter's collection, not an
 inherent method of that name

---
 derive_builder_core/src/setter.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index b6f72f5..2a6ebe4 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -176,18 +176,18 @@ impl<'a> ToTokens for Setter<'a> {
                 let ident_each = &each.name;
 
                 // Access the collection to extend, initialising with default value if necessary.
-                let get_initialized_collection = match (builder_field_is_option, stripped_option) {
+                let initialized_collection = match (builder_field_is_option, stripped_option) {
                     // Outer (builder) Option -> Inner (field) Option -> collection.
-                    (true, true) => quote!(.get_or_insert_with(|| Some(
+                    (true, true) => quote!(new.#field_ident.get_or_insert_with(|| Some(
                         #crate_root::export::core::default::Default::default()
                     ))
                     .get_or_insert_with(#crate_root::export::core::default::Default::default)),
                     // Only one Option, either of the builder or of a custom builder field type.
-                    (true, false) | (false, true) => quote!(.get_or_insert_with(
+                    (true, false) | (false, true) => quote!(new.#field_ident.get_or_insert_with(
                         #crate_root::export::core::default::Default::default
                     )),
                     // A custom builder field type which is the collection itself.
-                    (false, false) => quote!(),
+                    (false, false) => quote!(&mut new.#field_ident),
                 };
 
                 let ty_params: TokenStream;
@@ -212,9 +212,11 @@ impl<'a> ToTokens for Setter<'a> {
                         #ty: #crate_root::export::core::default::Default + #crate_root::export::core::iter::Extend<VALUE>,
                     {
                         let mut new = #self_into_return_ty;
-                        new.#field_ident
-                            #get_initialized_collection
-                            .extend(#crate_root::export::core::option::Option::Some(#into_item));
+                        // A method call would prefer an inherent `extend` of the collection.
+                        #crate_root::export::core::iter::Extend::extend(
+                            #initialized_collection,
+                            #crate_root::export::core::option::Option::Some(#into_item),
+                        );
                         new
                     }
                 ));
-- 
2.43.0


From 96ff7c24874c3378e8e2e8938323a6ea5a9da660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 11/14] fix: let Self in a field type mean the struct, not the
 builder

---
 derive_builder_core/src/lib.rs       |  6 ++-
 derive_builder_core/src/self_type.rs | 57 ++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+), 1 deletion(-)
 create mode 100644 derive_builder_core/src/self_type.rs

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index c666e78..ec9a2bb 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -37,6 +37,7 @@ mod doc_comment;
 mod initializer;
 mod macro_options;
 mod options;
+mod self_type;
 mod setter;
 
 pub(crate) use block::BlockContents;
@@ -49,12 +50,13 @@ pub(crate) use default_expression::DefaultExpression;
 pub(crate) use doc_comment::doc_comment_from;
 pub(crate) use initializer::{FieldConversion, Initializer};
 pub(crate) use options::{BuilderPattern, Each};
+pub(crate) use self_type::expand_self_type;
 pub(crate) use setter::Setter;
 
 const DEFAULT_STRUCT_NAME: &str = "__default";
 
 /// Derive a builder for a struct
-pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
+pub fn builder_for_struct(mut ast: syn::DeriveInput) -> proc_macro2::TokenStream {
     // darling considers unions unreachable and would panic on them.
     if let syn::Data::Union(ref data) = ast.data {
         return darling::Error::unsupported_shape_with_expected("union", &"struct with named fields")
@@ -62,6 +64,8 @@ pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
             .write_errors();
     }
 
+    expand_self_type(&mut ast);
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
diff --git a/derive_builder_core/src/self_type.rs b/derive_builder_core/src/self_type.rs
new file mode 100644
index 0000000..3072b7a
--- /dev/null
+++ b/derive_builder_core/src/self_type.rs
@@ -0,0 +1,57 @@
+use proc_macro2::{Group, TokenStream, TokenTree};
+use quote::ToTokens;
+use syn::{parse2, Data, DeriveInput, Ident};
+
+/// Spell out `Self` in the types of the fields.
+///
+/// The types are copied to the builder, where `Self` would be the builder itself.
+pub fn expand_self_type(ast: &mut DeriveInput) {
+    let ident = ast.ident.clone();
+    let (_, ty_generics, _) = ast.generics.split_for_impl();
+    let ty_generics = ty_generics.to_token_stream();
+
+    if let Data::Struct(ref mut data) = ast.data {
+        for field in data.fields.iter_mut() {
+            let (tokens, changed) = replace(field.ty.to_token_stream(), &ident, &ty_generics);
+            if changed {
+                if let Ok(ty) = parse2(tokens) {
+                    field.ty = ty;
+                }
+            }
+        }
+    }
+}
+
+/// Replace `Self` by the type it stands for. The flag tells whether there was any.
+fn replace(tokens: TokenStream, ident: &Ident, ty_generics: &TokenStream) -> (TokenStream, bool) {
+    let mut changed = false;
+    let mut result = TokenStream::new();
+    let mut tokens = tokens.into_iter().peekable();
+
+    while let Some(token) = tokens.next() {
+        match token {
+            TokenTree::Ident(ref self_ty) if self_ty == "Self" => {
+                changed = true;
+                let mut ident = ident.clone();
+                ident.set_span(self_ty.span());
+                let is_path_prefix =
+                    matches!(tokens.peek(), Some(TokenTree::Punct(p)) if p.as_char() == ':');
+                result.extend(if is_path_prefix {
+                    quote!(<#ident #ty_generics>)
+                } else {
+                    quote!(#ident #ty_generics)
+                });
+            }
+            TokenTree::Group(group) => {
+                let (stream, inner_changed) = replace(group.stream(), ident, ty_generics);
+                changed |= inner_changed;
+                let mut new_group = Group::new(group.delimiter(), stream);
+                new_group.set_span(group.span());
+                result.extend([TokenTree::Group(new_group)]);
+            }
+            other => result.extend([other]),
+        }
+    }
+
+    (result, changed)
+}
-- 
2.43.0


From df84f544163ecf406fc20a5720d09d5aee664da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 12/14] fix: each-setters call Option::get_or_insert_with by
 path

A user trait with a method named get_or_insert_with that is implemented for
all types was preferred over the inherent method of Option, and items named
Some shadowed the prelude.
---
 derive_builder_core/src/setter.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 2a6ebe4..1c6b74d 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -176,16 +176,22 @@ impl<'a> ToTokens for Setter<'a> {
                 let ident_each = &each.name;
 
                 // Access the collection to extend, initialising with default value if necessary.
+                // Paths rather than methods: a user trait may have a `get_or_insert_with` as well.
+                let option = quote!(#crate_root::export::core::option::Option);
+                let default = quote!(#crate_root::export::core::default::Default::default);
                 let initialized_collection = match (builder_field_is_option, stripped_option) {
                     // Outer (builder) Option -> Inner (field) Option -> collection.
-                    (true, true) => quote!(new.#field_ident.get_or_insert_with(|| Some(
-                        #crate_root::export::core::default::Default::default()
-                    ))
-                    .get_or_insert_with(#crate_root::export::core::default::Default::default)),
-                    // Only one Option, either of the builder or of a custom builder field type.
-                    (true, false) | (false, true) => quote!(new.#field_ident.get_or_insert_with(
-                        #crate_root::export::core::default::Default::default
+                    (true, true) => quote!(#option::get_or_insert_with(
+                        #option::get_or_insert_with(
+                            &mut new.#field_ident,
+                            || #option::Some(#default()),
+                        ),
+                        #default,
                     )),
+                    // Only one Option, either of the builder or of a custom builder field type.
+                    (true, false) | (false, true) => quote!(
+                        #option::get_or_insert_with(&mut new.#field_ident, #default)
+                    ),
                     // A custom builder field type which is the collection itself.
                     (false, false) => quote!(&mut new.#field_ident),
                 };
-- 
2.43.0


From 3cc00b04e04b03faacb9c6773f5633bb1adcbcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 13/14] fix: keep the meaning of $crate in the crate option
 next to a custom error type

---
 derive_builder_core/src/change_span.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/derive_builder_core/src/change_span.rs b/derive_builder_core/src/change_span.rs
index 4800464..14ca453 100644
--- a/derive_builder_core/src/change_span.rs
+++ b/derive_builder_core/src/change_span.rs
@@ -19,6 +19,12 @@ pub(crate) fn change_span(tokens: TokenStream, span: Span) -> TokenStream {
                 new_group.set_span(span);
                 result.push(TokenTree::Group(new_group));
             }
+            // `$crate` stands for the crate it was written in, so only its location may change.
+            TokenTree::Ident(ref ident) if ident == "$crate" => {
+                let resolved = span.resolved_at(ident.span());
+                token.set_span(resolved);
+                result.push(token);
+            }
             _ => {
                 token.set_span(span);
                 result.push(token);
-- 
2.43.0


From d664ed35f11746d58a175aea2c964bf45a992e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 14/14] fix: let self in user expressions mean the receiver
 when a macro adds the derive

---
 derive_builder_core/src/block.rs        |  4 +++-
 derive_builder_core/src/build_method.rs |  5 +++--
 derive_builder_core/src/change_span.rs  | 24 ++++++++++++++++++++++++
 derive_builder_core/src/lib.rs          |  2 +-
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index fcb2550..2f96290 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -4,6 +4,8 @@ use proc_macro2::{Span, TokenStream};
 use quote::ToTokens;
 use syn::{spanned::Spanned, Block, LitStr};
 
+use crate::resolve_self;
+
 /// A wrapper for expressions/blocks which automatically adds the start and end
 /// braces.
 ///
@@ -24,7 +26,7 @@ impl BlockContents {
 
 impl ToTokens for BlockContents {
     fn to_tokens(&self, tokens: &mut TokenStream) {
-        self.0.to_tokens(tokens)
+        tokens.extend(resolve_self(self.0.to_token_stream()))
     }
 }
 
diff --git a/derive_builder_core/src/build_method.rs b/derive_builder_core/src/build_method.rs
index 55150b4..c673fe5 100644
--- a/derive_builder_core/src/build_method.rs
+++ b/derive_builder_core/src/build_method.rs
@@ -5,7 +5,8 @@ use quote::{ToTokens, TokenStreamExt};
 use syn::spanned::Spanned;
 
 use crate::{
-    doc_comment_from, BuilderPattern, DefaultExpression, Initializer, DEFAULT_STRUCT_NAME,
+    doc_comment_from, resolve_self, BuilderPattern, DefaultExpression, Initializer,
+    DEFAULT_STRUCT_NAME,
 };
 
 /// Initializer for the struct fields in the build method, implementing
@@ -88,7 +89,7 @@ impl<'a> ToTokens for BuildMethod<'a> {
         let validate_fn = self
             .validate_fn
             .as_ref()
-            .map(|vfn| quote_spanned!(vfn.span() => #vfn(&self)?;));
+            .map(|vfn| resolve_self(quote_spanned!(vfn.span() => #vfn(&self)?;)));
         let error_ty = &self.error_ty;
 
         if self.enabled {
diff --git a/derive_builder_core/src/change_span.rs b/derive_builder_core/src/change_span.rs
index 14ca453..190a928 100644
--- a/derive_builder_core/src/change_span.rs
+++ b/derive_builder_core/src/change_span.rs
@@ -33,3 +33,27 @@ pub(crate) fn change_span(tokens: TokenStream, span: Span) -> TokenStream {
     }
     FromIterator::from_iter(result)
 }
+
+/// Make every `self` refer to the receiver of the generated method.
+///
+/// `self` is hygienic. When the derive comes from a macro and the tokens from the code which uses
+/// that macro, `self` would not be found.
+pub(crate) fn resolve_self(tokens: TokenStream) -> TokenStream {
+    let mut result = vec![];
+    for mut token in tokens {
+        match token {
+            TokenTree::Group(group) => {
+                let mut new_group = Group::new(group.delimiter(), resolve_self(group.stream()));
+                new_group.set_span(group.span());
+                result.push(TokenTree::Group(new_group));
+            }
+            TokenTree::Ident(ref ident) if ident == "self" => {
+                let resolved = Span::call_site().located_at(ident.span());
+                token.set_span(resolved);
+                result.push(token);
+            }
+            _ => result.push(token),
+        }
+    }
+    FromIterator::from_iter(result)
+}
diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index ec9a2bb..ec982bf 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -44,7 +44,7 @@ pub(crate) use block::BlockContents;
 pub(crate) use build_method::BuildMethod;
 pub(crate) use builder::Builder;
 pub(crate) use builder_field::{BuilderField, BuilderFieldType};
-pub(crate) use change_span::change_span;
+pub(crate) use change_span::{change_span, resolve_self};
 use darling::FromDeriveInput;
 pub(crate) use default_expression::DefaultExpression;
 pub(crate) use doc_comment::doc_comment_from;
-- 
2.43.0

