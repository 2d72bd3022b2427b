From e6995f75fb1cefecbb3ed15b5a8d0fcbdfee428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 01/31] fix: name String, format! and format_args! by absolute
 paths in generated code

---
 parse-display-derive/src/lib.rs            | 10 +++++-----
 parse-display-derive/src/parser_builder.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 2d47b5e..633c233 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -201,7 +201,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -282,7 +282,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
             let s = fmts.join("|");
-            quote! { #s.into() }
+            quote! { ::std::string::String::from(#s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
@@ -292,7 +292,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 })
                 .collect::<Vec<_>>();
             let fmt = fmts.join("|");
-            quote! { format!(#fmt, #(#regex_args,)*) }
+            quote! { ::std::format!(#fmt, #(#regex_args,)*) }
         };
 
         ts.extend(impl_trait(
@@ -300,7 +300,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -961,7 +961,7 @@ impl VarBase<'_> {
     ) -> Result<TokenStream> {
         if let Some(format) = format {
             let args = format.format_args(self, with, bounds, cx)?;
-            Ok(quote! { format_args!(#args) })
+            Ok(quote! { ::core::format_args!(#args) })
         } else {
             self.format_arg("", format_spec, span, with, bounds, cx)
         }
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7086605..56382ea 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -305,7 +305,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { #s.into() })
+                Ok(quote! { ::std::string::String::from(#s) })
             }
         }
     }
-- 
2.43.0


From 46897231a94bc536b56b041ac56483a08e695116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 02/31] fix: keep field names of #[from_str(new = ..)] from
 hiding names used by the parser

---
 parse-display-derive/src/parser_builder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 56382ea..431487c 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -350,11 +350,16 @@ impl<'a> ParserBuilder<'a> {
         }
 
         let code = if let Some(new_expr) = &self.new_expr {
-            let mut code = TokenStream::new();
+            let mut vars = Vec::new();
+            let mut exprs = Vec::new();
             for (key, field) in &self.fields {
-                let expr = field.build_field_init_expr(&names, key, self.span)?;
-                let var = key.new_arg_var();
-                code.extend(quote! { let #var = #expr; });
+                exprs.push(field.build_field_init_expr(&names, key, self.span)?);
+                vars.push(key.new_arg_var());
+            }
+            let mut code = TokenStream::new();
+            if !vars.is_empty() {
+                // Bind all fields at once so that a field name never hides a name used by a later field.
+                code.extend(quote! { let (#(#vars,)*) = (#(#exprs,)*); });
             }
             let crate_path = self.crate_path;
             code.extend(quote! {
-- 
2.43.0


From 530eaa0777c3dea88752bda14fe3940fedc4e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 03/31] fix: accept raw identifiers as fields of #[from_str(new
 = ..)]

---
 parse-display-derive/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 633c233..c520724 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1131,10 +1131,9 @@ impl FieldKey {
     }
     fn new_arg_var(&self) -> Ident {
         match self {
-            Self::Named(s) => parse_str(s),
-            Self::Unnamed(idx) => parse_str(&format!("_{idx}")),
+            Self::Named(s) => format_ident!("r#{s}"),
+            Self::Unnamed(idx) => format_ident!("_{idx}"),
         }
-        .unwrap()
     }
 }
 impl std::fmt::Display for FieldKey {
-- 
2.43.0


From 636d58e2dbcdc04dde38e65d9f3f58128f386bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 04/31] fix: parse '{x}' in a field's format into that field's
 own member, as Display writes it

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 431487c..7b21cc7 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -212,7 +212,7 @@ impl<'a> ParserBuilder<'a> {
                             continue;
                         }
                     }
-                    if keys.len() == 1 {
+                    if keys.len() == 1 && !matches!(vb, VarBase::Field { .. }) {
                         self.push_field(vb, &keys[0], format.span)?;
                         continue;
                     }
-- 
2.43.0


From 4798c07da351bb8a0d276001c438ff3ad2119af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 05/31] fix: parse optional fields with a custom format or
 regex_infer as the inner type

---
 parse-display-derive/src/parser_builder.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7b21cc7..09b222a 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -14,7 +14,7 @@ use std::{
     mem,
 };
 use syn::{
-    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Variant, parse_quote,
+    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, parse_quote,
     spanned::Spanned,
 };
 
@@ -226,8 +226,9 @@ impl<'a> ParserBuilder<'a> {
                             match vb {
                                 VarBase::Struct { .. } => {}
                                 VarBase::Variant { .. } => {}
-                                VarBase::Field { field, key, .. } => {
-                                    self.with.push(With::new(c, key, with_expr, &field.ty));
+                                VarBase::Field { key, .. } => {
+                                    let ty = self.field(key, format.span)?.parse_ty();
+                                    self.with.push(With::new(c, key, with_expr, ty));
                                 }
                                 VarBase::FieldSome { key, ty } => {
                                     self.with.push(With::new(c, key, with_expr, ty));
@@ -539,6 +540,15 @@ impl<'a> FieldEntry<'a> {
         };
         capture_name(idx)
     }
+    /// The type that is parsed from the text of this field: `T` if the field is an optional `Option<T>`.
+    fn parse_ty(&self) -> &'a Type {
+        let ty = &self.source.ty;
+        if self.hattrs.opt.value() {
+            get_option_element(ty).unwrap_or(ty)
+        } else {
+            ty
+        }
+    }
     fn capture_index(&self, names: &HashMap<&str, usize>) -> Option<usize> {
         Some(capture_index(self.capture?, names))
     }
@@ -700,7 +710,7 @@ fn str_expr_to_parse_capture_expr(
     crate_path: &Path,
 ) -> TokenStream {
     if let Some(with) = &field.hattrs.with {
-        let ty = &field.source.ty;
+        let ty = field.parse_ty();
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-- 
2.43.0


From c07aca4765a0d32257c5a75170e9908fc9051934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 06/31] fix: give from_str(with = ..) priority when parsing,
 wherever it is written

---
 parse-display-derive/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index c520724..94ce6a4 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -418,15 +418,19 @@ impl HelperAttributes {
             dump_from_str: false,
             crate_path: parse_quote!(::parse_display),
         };
+        let mut with_from_str = None;
         for a in attrs {
             if a.path().is_ident("display") {
                 hattrs.set_display_args(a.parse_args()?)?;
             }
             if use_from_str && a.path().is_ident("from_str") {
                 hattrs.push_from_str_warning_spans(a)?;
-                hattrs.set_from_str_args(a.parse_args()?);
+                hattrs.set_from_str_args(a.parse_args()?, &mut with_from_str);
             }
         }
+        if with_from_str.is_some() {
+            hattrs.with = with_from_str;
+        }
         Ok(hattrs)
     }
     fn set_display_args(&mut self, args: DisplayArgs) -> Result<()> {
@@ -457,13 +461,13 @@ impl HelperAttributes {
         self.dump_display |= args.dump;
         Ok(())
     }
-    fn set_from_str_args(&mut self, args: FromStrArgs) {
+    fn set_from_str_args(&mut self, args: FromStrArgs, with_from_str: &mut Option<Expr>) {
         if let Some(regex) = args.regex {
             self.regex = Some(regex);
         }
         self.regex_infer |= args.regex_infer.value();
         if let Some(with) = args.with {
-            self.with = Some(with);
+            *with_from_str = Some(with);
         }
         if let Some(new) = args.new {
             self.new_expr = Some(new);
-- 
2.43.0


From 9492b2fa904a51aedf04ccc16f8176859d1075e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 07/31] fix: show and parse a raw variant name without its r#
 prefix

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 94ce6a4..cd94aa1 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -621,7 +621,7 @@ impl DisplayStyle {
             }
         }
 
-        let s = ident.to_string();
+        let s = ident.unraw().to_string();
         let (line_head, word_head, normal, sep) = match self {
             DisplayStyle::None => {
                 return s;
-- 
2.43.0


From 8e11314090219edf6be18f139f645738bb0e0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 08/31] fix: reject #[from_str(default)] on an enum variant,
 which parsed as the enum's default

---
 parse-display-derive/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index cd94aa1..acb2429 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -232,6 +232,12 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .deprecated_default_fields_warning_spans
                 .iter(),
         );
+        if let Some(span) = hattrs_variant.default_self {
+            bail!(
+                span,
+                "`#[from_str(default)]` cannot be specified for enum variant."
+            );
+        }
         if hattrs_variant.ignore.value() {
             continue;
         }
-- 
2.43.0


From 54bc69644174d2d4144e346e1ace5cab762261b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 09/31] fix: derive Display for enums without variants

---
 parse-display-derive/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index acb2429..5fa8797 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -148,10 +148,16 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
     for variant in &data.variants {
         arms.push(make_arm(&hattrs, variant, &mut bounds, &cx)?);
     }
+    // A reference to a type without values still needs arms, the place behind it does not.
+    let value = if arms.is_empty() {
+        quote!(*self)
+    } else {
+        quote!(self)
+    };
     let trait_path = parse_quote!(::core::fmt::Display);
     let contents = quote! {
         fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-            match self {
+            match #value {
                 #(#arms)*
             }
         }
-- 
2.43.0


From af04256f9f5f9959825b3c45d1b9921b87e4c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 10/31] fix: report a pattern that matches nothing for enums
 that accept no input

---
 parse-display-derive/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 5fa8797..6ad9ba2 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -288,7 +288,10 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         },
     ));
     if cfg!(feature = "std") {
-        let body = if regex_args.is_empty() {
+        let body = if regex_fmts.is_empty() {
+            // No input is accepted, not even the empty string.
+            quote! { ::std::string::String::from(r"[^\s\S]") }
+        } else if regex_args.is_empty() {
             let fmts = regex_fmts
                 .into_iter()
                 .map(|s| escape(&s.unwrap()))
-- 
2.43.0


From 54420e321cdb6244fdaa981f7f9b58bc8e547a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 11/31] fix: accept nested capture names that start with a
 tuple index, and names that differ only in . and _

---
 parse-display-derive/src/parser_builder.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 09b222a..e97fd64 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -125,7 +125,6 @@ impl<'a> ParserBuilder<'a> {
             s.len() % 2 == 1
         }
 
-        let regex_number = regex!("^[0-9]+$");
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
 
         let text = s.value();
@@ -135,13 +134,13 @@ impl<'a> ParserBuilder<'a> {
                 return c[0].to_owned();
             }
             let key = &c[IDX_KEY];
-            let key = if key.is_empty() {
-                "self".into()
+            if key.is_empty() {
+                format!("{esc}(?<self>")
+            } else if key.starts_with(|c: char| c.is_ascii_digit()) {
+                format!("{esc}(?<_{key}>")
             } else {
-                key.replace('.', "_")
-            };
-            let key = regex_number.replace(&key, "_$0");
-            format!("{esc}(?<{key}>")
+                format!("{esc}(?<{key}>")
+            }
         });
         if let Err(e) = regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
             bail!(s.span(), "{e}")
-- 
2.43.0


From 0f2d4872f2719019b8df38f9bcb2841fff218ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 12/31] fix: report placeholder names that are not field names
 instead of panicking

---
 parse-display-derive/src/lib.rs            | 27 ++++++++++++++--------
 parse-display-derive/src/parser_builder.rs |  4 ++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 6ad9ba2..02373b4 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -31,7 +31,7 @@ use syn::{
     FieldsUnnamed, GenericArgument, Ident, LitStr, Member, Path, PathArguments, Result, Token,
     Type, Variant,
     ext::IdentExt,
-    parse::{Parse, ParseStream},
+    parse::{Parse, ParseStream, Parser},
     parse_macro_input, parse_quote, parse_str,
     spanned::Spanned,
 };
@@ -864,7 +864,7 @@ impl VarBase<'_> {
         bounds: &mut Bounds,
         cx: &CodeContext,
     ) -> Result<TokenStream> {
-        let keys = FieldKey::from_str_deep(arg);
+        let keys = FieldKey::from_str_deep(arg, span)?;
         if keys.is_empty() {
             if matches!(self, VarBase::Struct { .. } | VarBase::Variant { .. })
                 && format_spec.format_type != FormatType::Display
@@ -1085,11 +1085,20 @@ enum FieldKey {
 }
 
 impl FieldKey {
-    fn from_str(s: &str) -> FieldKey {
-        if let Ok(idx) = s.parse() {
-            FieldKey::Unnamed(idx)
+    fn from_str(s: &str, span: Span) -> Result<FieldKey> {
+        if s.starts_with(|c: char| c.is_ascii_digit()) {
+            if let Ok(idx) = s.parse::<u32>() {
+                return Ok(FieldKey::Unnamed(idx as usize));
+            }
+        }
+        let name = trim_raw(s);
+        if name.chars().all(|c| c == '_' || c.is_alphanumeric())
+            && !matches!(name, "_" | "self" | "Self" | "super" | "crate")
+            && Ident::parse_any.parse_str(name).is_ok()
+        {
+            Ok(FieldKey::Named(name.to_string()))
         } else {
-            FieldKey::Named(trim_raw(s).to_string())
+            bail!(span, "invalid field name '{s}'.")
         }
     }
     fn from_string(mut s: String) -> FieldKey {
@@ -1105,11 +1114,11 @@ impl FieldKey {
     fn from_ident(ident: &Ident) -> FieldKey {
         Self::from_string(ident.to_string())
     }
-    fn from_str_deep(s: &str) -> Vec<FieldKey> {
+    fn from_str_deep(s: &str, span: Span) -> Result<Vec<FieldKey>> {
         if s.is_empty() {
-            Vec::new()
+            Ok(Vec::new())
         } else {
-            s.split('.').map(Self::from_str).collect()
+            s.split('.').map(|s| Self::from_str(s, span)).collect()
         }
     }
     fn from_fields_named(fields: &FieldsNamed) -> impl Iterator<Item = (FieldKey, &Field)> {
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index e97fd64..2a925ee 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -156,7 +156,7 @@ impl<'a> ParserBuilder<'a> {
             }
             has_capture = true;
             let cp = &c[IDX_P];
-            let keys = FieldKey::from_str_deep(&c[IDX_KEY]);
+            let keys = FieldKey::from_str_deep(&c[IDX_KEY], s.span())?;
             let name = self.set_capture(vb, &keys, s.span())?;
             if name == CAPTURE_NAME_EMPTY {
                 if !cp.is_empty() {
@@ -204,7 +204,7 @@ impl<'a> ParserBuilder<'a> {
                 DisplayFormatPart::EscapedBeginBracket => self.push_str("{"),
                 DisplayFormatPart::EscapedEndBracket => self.push_str("}"),
                 DisplayFormatPart::Var { arg, .. } => {
-                    let keys = FieldKey::from_str_deep(arg);
+                    let keys = FieldKey::from_str_deep(arg, format.span)?;
                     if let VarBase::Variant { variant, style, .. } = vb {
                         if keys.is_empty() {
                             self.push_str(&style.apply(&variant.ident));
-- 
2.43.0


From 891de9b6e15ec07fdb027acc911437d0d23d5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 13/31] fix: report a missing format and an unsupported item as
 located errors instead of panicking

---
 parse-display-derive/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 02373b4..99a37ab 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -42,7 +42,10 @@ pub fn derive_display(input: proc_macro::TokenStream) -> proc_macro::TokenStream
     into_macro_output(match &input.data {
         Data::Struct(data) => derive_display_for_struct(&input, data),
         Data::Enum(data) => derive_display_for_enum(&input, data),
-        Data::Union(_) => panic!("`#[derive(Display)]` supports only enum or struct."),
+        Data::Union(data) => Err(syn::Error::new(
+            data.union_token.span,
+            "`#[derive(Display)]` supports only enum or struct.",
+        )),
     })
 }
 
@@ -172,7 +175,10 @@ pub fn derive_from_str(input: proc_macro::TokenStream) -> proc_macro::TokenStrea
     into_macro_output(match &input.data {
         Data::Struct(data) => derive_from_str_for_struct(&input, data),
         Data::Enum(data) => derive_from_str_for_enum(&input, data),
-        Data::Union(_) => panic!("`#[derive(FromStr)]` supports only enum or struct."),
+        Data::Union(data) => Err(syn::Error::new(
+            data.union_token.span,
+            "`#[derive(FromStr)]` supports only enum or struct.",
+        )),
     })
 }
 fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<TokenStream> {
@@ -1013,10 +1019,16 @@ impl VarBase<'_> {
         const ERROR_MESSAGE_FOR_VARIANT: &str = "`#[display(\"format\")]` or `#[from_str(regex = \"regex\")]` is required except unit variant.";
         Ok(match self {
             VarBase::Struct { data, .. } => {
-                DisplayFormat::from_newtype_struct(data).expect(ERROR_MESSAGE_FOR_STRUCT)
+                let Some(format) = DisplayFormat::from_newtype_struct(data) else {
+                    bail!(data.fields.span(), "{ERROR_MESSAGE_FOR_STRUCT}");
+                };
+                format
             }
             VarBase::Variant { variant, .. } => {
-                DisplayFormat::from_unit_variant(variant)?.expect(ERROR_MESSAGE_FOR_VARIANT)
+                let Some(format) = DisplayFormat::from_unit_variant(variant)? else {
+                    bail!(variant.span(), "{ERROR_MESSAGE_FOR_VARIANT}");
+                };
+                format
             }
             VarBase::Field { field, .. } => DisplayFormat::parse("{}", field.span())?,
             VarBase::FieldSome { ty, .. } => DisplayFormat::parse("{}", ty.span())?,
-- 
2.43.0


From a8644907452baa0e5df762d322df9ef47f327931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 14/31] fix: report regular expressions that do not compile as
 located errors instead of panicking

---
 parse-display-derive/src/lib.rs            |  4 +--
 parse-display-derive/src/parser_builder.rs | 15 ++++++----
 parse-display-derive/src/regex_utils.rs    | 34 ++++++++++++++--------
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 99a37ab..729aa6e 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -6,10 +6,10 @@
 extern crate proc_macro;
 
 #[macro_use]
-mod regex_utils;
+mod syn_utils;
 
 #[macro_use]
-mod syn_utils;
+mod regex_utils;
 
 mod bound;
 mod format_syntax;
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 2a925ee..8e2b769 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -142,7 +142,7 @@ impl<'a> ParserBuilder<'a> {
                 format!("{esc}(?<{key}>")
             }
         });
-        if let Err(e) = regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
+        if let Err(e) = regex_syntax::Parser::new().parse(&text_debug) {
             bail!(s.span(), "{e}")
         }
 
@@ -170,8 +170,8 @@ impl<'a> ParserBuilder<'a> {
         if has_capture_empty {
             if let VarBase::Variant { variant, style, .. } = vb {
                 let value = style.apply(&variant.ident);
-                self.parse_format
-                    .push_hir(to_hir_with_expand(&text, CAPTURE_NAME_EMPTY, &value));
+                let hir = to_hir_with_expand(&text, CAPTURE_NAME_EMPTY, &value, s.span())?;
+                self.parse_format.push_hir(hir);
                 return Ok(());
             }
             bail!(
@@ -188,7 +188,7 @@ impl<'a> ParserBuilder<'a> {
                 text = format!("(?<{name}>{text})");
             }
         }
-        self.parse_format.push_hir(to_hir(&text));
+        self.parse_format.push_hir(to_hir(&text, s.span())?);
         Ok(())
     }
     fn push_format(
@@ -235,7 +235,7 @@ impl<'a> ParserBuilder<'a> {
                             }
                         }
                     }
-                    self.parse_format.push_hir(to_hir(&f));
+                    self.parse_format.push_hir(to_hir(&f, format.span)?);
                 }
             }
         }
@@ -339,7 +339,10 @@ impl<'a> ParserBuilder<'a> {
         let re;
         match &self.parse_format {
             ParseFormat::Hirs(hirs) => {
-                re = Regex::new(&to_regex_string(hirs)).unwrap();
+                re = match Regex::new(&to_regex_string(hirs)) {
+                    Ok(re) => re,
+                    Err(e) => bail!(self.span, "{e}"),
+                };
                 for (index, name) in re.capture_names().enumerate() {
                     if let Some(name) = name {
                         names.insert(name, index);
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 35849f1..b95771d 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,28 +1,38 @@
+use proc_macro2::Span;
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
 use regex_syntax::hir::Hir;
+use syn::Result;
 
-pub fn to_hir(s: &str) -> Hir {
-    regex_syntax::Parser::new().parse(s).unwrap()
+pub fn to_hir(s: &str, span: Span) -> Result<Hir> {
+    match regex_syntax::Parser::new().parse(s) {
+        Ok(hir) => Ok(hir),
+        Err(e) => bail!(span, "{e}"),
+    }
 }
-pub fn to_hir_with_expand(s: &str, name: &str, value: &str) -> Hir {
-    let mut ast = to_ast(s);
+pub fn to_hir_with_expand(s: &str, name: &str, value: &str, span: Span) -> Result<Hir> {
+    let mut ast = to_ast(s, span)?;
+    let value = to_ast(&regex_syntax::escape(value), span)?;
     expand_capture(&mut ast, |group_name| {
         if group_name == name {
-            Some(to_ast(&regex_syntax::escape(value)))
+            Some(value.clone())
         } else {
             None
         }
     });
     let s = format!("{ast}");
 
-    regex_syntax::hir::translate::Translator::new()
-        .translate(&s, &ast)
-        .unwrap()
+    match regex_syntax::hir::translate::Translator::new().translate(&s, &ast) {
+        Ok(hir) => Ok(hir),
+        Err(e) => bail!(span, "{e}"),
+    }
 }
 
-fn to_ast(s: &str) -> Ast {
-    regex_syntax::ast::parse::Parser::new().parse(s).unwrap()
+fn to_ast(s: &str, span: Span) -> Result<Ast> {
+    match regex_syntax::ast::parse::Parser::new().parse(s) {
+        Ok(ast) => Ok(ast),
+        Err(e) => bail!(span, "{e}"),
+    }
 }
 
 pub fn push_str(hirs: &mut Vec<Hir>, s: &str) {
@@ -82,8 +92,8 @@ fn expand_capture(ast: &mut Ast, mut f: impl FnMut(&str) -> Option<Ast>) {
 pub fn try_replace_all<R: AsRef<str>, E>(
     regex: &Regex,
     text: &str,
-    mut replacer: impl FnMut(&Captures) -> Result<R, E>,
-) -> Result<String, E> {
+    mut replacer: impl FnMut(&Captures) -> std::result::Result<R, E>,
+) -> std::result::Result<String, E> {
     let mut s = String::new();
     let mut last_end = 0;
     for c in regex.captures_iter(text) {
-- 
2.43.0


From 582d1430228608819aee4bfc148005ad32026e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 15/31] fix: leave '(?<name>' inside a character class as the
 characters it is

---
 parse-display-derive/src/parser_builder.rs | 24 ++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 8e2b769..9e58902 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -124,13 +124,33 @@ impl<'a> ParserBuilder<'a> {
         fn is_escaped(s: &str) -> bool {
             s.len() % 2 == 1
         }
+        // Whether the text matched by `c` is part of a character class such as `[(?<a>]`.
+        fn is_in_class(s: &str, c: &Captures) -> bool {
+            let mut depth = 0;
+            let mut chars = s[..c.get(0).unwrap().start()].chars().peekable();
+            while let Some(c) = chars.next() {
+                match c {
+                    '\\' => {
+                        chars.next();
+                    }
+                    '[' => {
+                        depth += 1;
+                        chars.next_if_eq(&'^');
+                        chars.next_if_eq(&']');
+                    }
+                    ']' if depth > 0 => depth -= 1,
+                    _ => {}
+                }
+            }
+            depth > 0
+        }
 
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
 
         let text = s.value();
         let text_debug = regex_capture.replace_all(&text, |c: &Captures| {
             let esc = &c[IDX_ESC];
-            if is_escaped(esc) {
+            if is_escaped(esc) || is_in_class(&text, c) {
                 return c[0].to_owned();
             }
             let key = &c[IDX_KEY];
@@ -151,7 +171,7 @@ impl<'a> ParserBuilder<'a> {
         let mut p = "";
         let mut text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
             let esc = &c[IDX_ESC];
-            if is_escaped(esc) {
+            if is_escaped(esc) || is_in_class(&text, c) {
                 return Ok(c[0].to_owned());
             }
             has_capture = true;
-- 
2.43.0


From 30d434380f4e865c74e38e14f3c664e019e5e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 16/31] fix: apply the placeholder's format parameters and
 trait to optional fields

---
 parse-display-derive/src/lib.rs |  9 ++++++++-
 parse-display/src/helpers.rs    | 33 +++++++++++++++++++++------------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 729aa6e..8e79478 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -943,6 +943,13 @@ impl VarBase<'_> {
             let crate_path = cx.crate_path;
             let in_expr = self.field_expr(key);
             let formatter_ident = Ident::new("_formatter", Span::call_site());
+            // A format given for the field is written as it is, otherwise the value is formatted as the placeholder says.
+            let format_type = if hattrs.format.is_some() {
+                &FormatType::Display
+            } else {
+                &format_spec.format_type
+            };
+            let tr = Ident::new(format_type.trait_name(), Span::call_site());
             let vb = VarBase::FieldSome { key, ty: inner_ty };
             let out_expr = vb.format_arg_from_some_format(
                 hattrs.format,
@@ -958,7 +965,7 @@ impl VarBase<'_> {
                     #crate_path::helpers::OptionFormatHelper::<#inner_ty, _> {
                         value: &#in_expr,
                         f: |#ident : &#inner_ty, #formatter_ident : &mut ::core::fmt::Formatter| {
-                             ::core::write!(#formatter_ident, "{}", #out_expr)
+                             ::core::fmt::#tr::fmt(&#out_expr, #formatter_ident)
                         },
                         none_value: "",
                     }
diff --git a/parse-display/src/helpers.rs b/parse-display/src/helpers.rs
index 5659cba..32d4aa2 100644
--- a/parse-display/src/helpers.rs
+++ b/parse-display/src/helpers.rs
@@ -1,5 +1,5 @@
 use ::core::{
-    fmt::{self, Display, Formatter},
+    fmt::{self, Formatter},
     ops::Fn,
 };
 
@@ -43,18 +43,27 @@ pub struct OptionFormatHelper<'a, T, F> {
     pub f: F,
     pub none_value: &'a str,
 }
-impl<'a, T, F> Display for OptionFormatHelper<'a, T, F>
-where
-    F: Fn(&'a T, &mut Formatter) -> fmt::Result,
-{
-    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        if let Some(value) = self.value {
-            (self.f)(value, f)
-        } else {
-            Formatter::write_str(f, self.none_value)
-        }
-    }
+macro_rules! impl_option_format_helper {
+    ($($tr:ident,)*) => {
+        $(
+            impl<'a, T, F> fmt::$tr for OptionFormatHelper<'a, T, F>
+            where
+                F: Fn(&'a T, &mut Formatter) -> fmt::Result,
+            {
+                fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+                    if let Some(value) = self.value {
+                        (self.f)(value, f)
+                    } else {
+                        Formatter::write_str(f, self.none_value)
+                    }
+                }
+            }
+        )*
+    };
 }
+impl_option_format_helper!(
+    Display, Debug, Octal, LowerHex, UpperHex, Pointer, Binary, LowerExp, UpperExp,
+);
 
 #[deprecated(
     note = "`#[from_str(default_fields)]` will be removed in a future version. Use `#[from_str(default)]` instead."
-- 
2.43.0


From fd3830e52535bd1f91ba34a23cc5b2cd93a49323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 17/31] fix: accept #[display(opt)] when the type comes from a
 macro_rules fragment or is in parentheses

---
 parse-display-derive/src/syn_utils.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index b11b4e6..9e90bae 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -179,6 +179,15 @@ pub fn dump_if(dump: bool, ts: &TokenStream) {
 }
 
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
+    // A type passed to a `macro_rules!` macro as `$t:ty` is wrapped in an invisible group.
+    let mut ty = ty;
+    loop {
+        ty = match ty {
+            Type::Group(ty) => &ty.elem,
+            Type::Paren(ty) => &ty.elem,
+            _ => break,
+        }
+    }
     if let Type::Path(ty) = ty {
         if ty.qself.is_some() {
             return None;
-- 
2.43.0


From 7f6a57129bacb72cbd8da33126772052148c4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 18/31] fix: resolve generated names at the derive when a
 format or with expression comes from a macro_rules argument

---
 parse-display-derive/src/lib.rs            | 11 ++++++++++-
 parse-display-derive/src/parser_builder.rs |  9 +++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 8e79478..7a328ba 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -774,7 +774,7 @@ impl DisplayFormat {
                         let crate_path = &cx.crate_path;
                         expr = quote!(#crate_path::helpers::fmt_pointer(#expr));
                     }
-                    expr = set_span(expr, self.span);
+                    expr = set_location(expr, self.span);
                     format_args.push(expr);
                 }
             }
@@ -1236,6 +1236,15 @@ fn set_span(ts: TokenStream, span: Span) -> TokenStream {
         })
         .collect()
 }
+// Set the location used for error messages without changing how names are resolved.
+fn set_location(ts: TokenStream, span: Span) -> TokenStream {
+    ts.into_iter()
+        .map(|mut ts| {
+            ts.set_span(ts.span().located_at(span));
+            ts
+        })
+        .collect()
+}
 
 fn unref_ty(ty: &Type) -> Type {
     if let Type::Reference(ty) = ty {
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 9e58902..588fda8 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -1,6 +1,6 @@
 use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
-    With, field_map, get_option_element, join, regex_utils::*, set_span, syn_utils::*,
+    With, field_map, get_option_element, join, regex_utils::*, set_location, syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
@@ -441,12 +441,13 @@ impl<'a> ParserBuilder<'a> {
             },
         ) in self.with.iter().enumerate()
         {
-            with.push(quote_spanned! {expr.span()=>
+            let span = Span::call_site().located_at(expr.span());
+            with.push(quote_spanned! {span=>
                 (#capture, #helpers::to_ast::<#ty, _>(&#expr))
             });
             let msg =
                 format!("The regex for the field `{key}` varies depending on the type parameter.");
-            debug_asserts.push(quote_spanned! {expr.span()=>
+            debug_asserts.push(quote_spanned! {span=>
                 ::core::debug_assert_eq!(&p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
             });
         }
@@ -736,7 +737,7 @@ fn str_expr_to_parse_capture_expr(
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-        set_span(expr, with.span())
+        set_location(expr, with.span())
     } else {
         quote!(#str_expr.parse())
     }
-- 
2.43.0


From 3b2aea6dd4c7692561c6424c46138c3e4d9c8f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 19/31] fix: bind the variables of #[from_str(new = ..)] where
 the field's name comes from

---
 parse-display-derive/src/parser_builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 588fda8..7a4ad53 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -377,7 +377,11 @@ impl<'a> ParserBuilder<'a> {
             let mut exprs = Vec::new();
             for (key, field) in &self.fields {
                 exprs.push(field.build_field_init_expr(&names, key, self.span)?);
-                vars.push(key.new_arg_var());
+                let mut var = key.new_arg_var();
+                if let Some(ident) = &field.source.ident {
+                    var.set_span(ident.span());
+                }
+                vars.push(var);
             }
             let mut code = TokenStream::new();
             if !vars.is_empty() {
-- 
2.43.0


From e8cd1e33b6a38051cfed197208f19bd4a4441f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 20/31] fix: let #[display(with = ..)] name a user constant
 called PARSER

---
 parse-display-derive/src/parser_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7a4ad53..5b020f6 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -470,9 +470,9 @@ impl<'a> ParserBuilder<'a> {
                 } = self.build_parser_init(&hirs_with_start_end(hirs))?;
                 let crate_path = self.crate_path;
                 quote! {
-                    static PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
+                    static __PARSE_DISPLAY_PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
                     #[allow(clippy::trivial_regex)]
-                    let p = PARSER.get_or_init(|| #expr);
+                    let p = __PARSE_DISPLAY_PARSER.get_or_init(|| #expr);
                     #(#debug_asserts)*
                     if let ::core::option::Option::Some(c) = p.re.captures(&s) {
                          #code
-- 
2.43.0


From fe363355865cfc8bc8694f3ca109f7a831769aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 21/31] fix: do not rely on From being in scope in generated
 FromStrRegex impls

---
 parse-display-derive/src/lib.rs            | 4 ++--
 parse-display-derive/src/parser_builder.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 7a328ba..1c3bddf 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -296,14 +296,14 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
     if cfg!(feature = "std") {
         let body = if regex_fmts.is_empty() {
             // No input is accepted, not even the empty string.
-            quote! { ::std::string::String::from(r"[^\s\S]") }
+            quote! { <::std::string::String as ::core::convert::From<&str>>::from(r"[^\s\S]") }
         } else if regex_args.is_empty() {
             let fmts = regex_fmts
                 .into_iter()
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
             let s = fmts.join("|");
-            quote! { ::std::string::String::from(#s) }
+            quote! { <::std::string::String as ::core::convert::From<&str>>::from(#s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 5b020f6..5b5a540 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -325,7 +325,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { ::std::string::String::from(#s) })
+                Ok(quote! { <::std::string::String as ::core::convert::From<&str>>::from(#s) })
             }
         }
     }
-- 
2.43.0


From b43990c917ee32d7924a2910ee6c8f4b8fffc4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 22/31] fix: derive FromStr for an enum with a variant named
 Err

---
 parse-display-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 1c3bddf..6e5adc3 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -199,7 +199,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #body
             }
@@ -285,7 +285,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
-- 
2.43.0


From 8576f8d43a2bccd4a1f367d1fcc29d417c6928a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 23/31] fix: report malformed attributes of fields that do not
 appear in the Display format

---
 parse-display-derive/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 6e5adc3..8b34bd8 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -51,6 +51,7 @@ pub fn derive_display(input: proc_macro::TokenStream) -> proc_macro::TokenStream
 
 fn derive_display_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<TokenStream> {
     let hattrs = HelperAttributes::from(&input.attrs, false)?;
+    check_field_attributes(&data.fields)?;
     let vb = VarBase::Struct { data };
 
     let mut format = hattrs.format;
@@ -86,6 +87,13 @@ fn derive_display_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<T
         hattrs.dump_display,
     )
 }
+// Reports the malformed attributes of all fields, including the fields that do not appear in the format.
+fn check_field_attributes(fields: &Fields) -> Result<()> {
+    for field in fields {
+        HelperAttributes::from(&field.attrs, false)?;
+    }
+    Ok(())
+}
 fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<TokenStream> {
     fn make_arm(
         hattrs_enum: &HelperAttributes,
@@ -111,6 +119,7 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
             Fields::Unit => quote! {},
         };
         let hattrs_variant = HelperAttributes::from(&variant.attrs, false)?;
+        check_field_attributes(&variant.fields)?;
         let style = DisplayStyle::from_helper_attributes(hattrs_enum, &hattrs_variant);
         let mut format = hattrs_variant.format;
         if format.is_none() {
-- 
2.43.0


From c6af1e1c50bc29bc3c7ca5a84f315a308cb663dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 24/31] fix: refuse {} in a struct's format when only FromStr
 is derived

---
 parse-display-derive/src/parser_builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 5b5a540..a8d3e22 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -1,6 +1,7 @@
 use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
-    With, field_map, get_option_element, join, regex_utils::*, set_location, syn_utils::*,
+    With, field_map, format_syntax::*, get_option_element, join, regex_utils::*, set_location,
+    syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
@@ -223,8 +224,14 @@ impl<'a> ParserBuilder<'a> {
                 DisplayFormatPart::Str(s) => self.push_str(s),
                 DisplayFormatPart::EscapedBeginBracket => self.push_str("{"),
                 DisplayFormatPart::EscapedEndBracket => self.push_str("}"),
-                DisplayFormatPart::Var { arg, .. } => {
+                DisplayFormatPart::Var { arg, format_spec } => {
                     let keys = FieldKey::from_str_deep(arg, format.span)?;
+                    if keys.is_empty() && matches!(vb, VarBase::Struct { .. }) {
+                        let spec = FormatSpec::parse_with_span(format_spec, format.span)?;
+                        if spec.format_type == FormatType::Display {
+                            bail!(format.span, "{{}} is not allowed in struct format.")
+                        }
+                    }
                     if let VarBase::Variant { variant, style, .. } = vb {
                         if keys.is_empty() {
                             self.push_str(&style.apply(&variant.ident));
-- 
2.43.0


From 0781a6ac18cfc1f67bd22920d30c12b1c4ab10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 25/31] fix: recognise capture names outside ASCII in
 #[from_str(regex = ..)]

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index a8d3e22..8021afa 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -146,7 +146,7 @@ impl<'a> ParserBuilder<'a> {
             depth > 0
         }
 
-        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
+        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[\w.]*)>");
 
         let text = s.value();
         let text_debug = regex_capture.replace_all(&text, |c: &Captures| {
-- 
2.43.0


From fafbdfb38d326572f5e8d7e50cd1c8b82a1624aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 26/31] fix: accept field names with combining marks in
 placeholders

---
 parse-display-derive/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 8b34bd8..a1a5491 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1120,9 +1120,8 @@ impl FieldKey {
             }
         }
         let name = trim_raw(s);
-        if name.chars().all(|c| c == '_' || c.is_alphanumeric())
-            && !matches!(name, "_" | "self" | "Self" | "super" | "crate")
-            && Ident::parse_any.parse_str(name).is_ok()
+        if !matches!(name, "_" | "self" | "Self" | "super" | "crate")
+            && Ident::parse_any.parse_str(name).is_ok_and(|x| x == name)
         {
             Ok(FieldKey::Named(name.to_string()))
         } else {
-- 
2.43.0


From f1b68d601903ed552fef22cf2e181ebf51467ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:59 +0000
Subject: [PATCH 27/31] fix: keep the parentheses of a repetition inside a
 repetition, such as (?:a+)?, in #[from_str(regex = ..)]

---
 parse-display-derive/src/regex_utils.rs | 39 +++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index b95771d..13cd664 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,7 +1,7 @@
 use proc_macro2::Span;
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
-use regex_syntax::hir::Hir;
+use regex_syntax::hir::{Hir, HirKind};
 use syn::Result;
 
 pub fn to_hir(s: &str, span: Span) -> Result<Hir> {
@@ -45,7 +45,42 @@ pub fn hirs_with_start_end(hirs: &[Hir]) -> Vec<Hir> {
     hs
 }
 pub fn to_regex_string(hirs: &[Hir]) -> String {
-    Hir::concat(hirs.to_vec()).to_string()
+    hir_to_string(&Hir::concat(hirs.to_vec()))
+}
+fn hir_to_string(hir: &Hir) -> String {
+    match hir.kind() {
+        HirKind::Repetition(r) => {
+            let mut sub = hir_to_string(&r.sub);
+            // `Hir`'s `Display` omits these parentheses, which makes `(?:a+)?` the lazy `a+?`.
+            if matches!(r.sub.kind(), HirKind::Repetition(_)) {
+                sub = format!("(?:{sub})");
+            }
+            let op = match (r.min, r.max) {
+                (0, Some(1)) => "?".to_string(),
+                (0, None) => "*".to_string(),
+                (1, None) => "+".to_string(),
+                (m, None) => format!("{{{m},}}"),
+                (m, Some(n)) => format!("{{{m},{n}}}"),
+            };
+            let lazy = if r.greedy { "" } else { "?" };
+            format!("{sub}{op}{lazy}")
+        }
+        HirKind::Capture(c) => {
+            let sub = hir_to_string(&c.sub);
+            match &c.name {
+                Some(name) => format!("(?P<{name}>{sub})"),
+                None => format!("({sub})"),
+            }
+        }
+        HirKind::Concat(hirs) => {
+            format!("(?:{})", hirs.iter().map(hir_to_string).collect::<String>())
+        }
+        HirKind::Alternation(hirs) => {
+            let subs: Vec<_> = hirs.iter().map(hir_to_string).collect();
+            format!("(?:{})", subs.join("|"))
+        }
+        _ => hir.to_string(),
+    }
 }
 
 fn replace_asts(asts: &mut Vec<Ast>, f: &mut impl FnMut(&mut Ast) -> bool) {
-- 
2.43.0


From 1b017789922731ed7c23586edb32685ff57a9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 28/31] fix: leave what '.' matches in a field's regex alone
 when the field has a display format

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 8021afa..e0c9224 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -246,7 +246,7 @@ impl<'a> ParserBuilder<'a> {
                     let mut f = format!("(?<{c}>(?s:.*?))");
                     if keys.is_empty() {
                         if let Some(regex) = regex {
-                            f = format!("(?<{c}>(?s:{regex}))");
+                            f = format!("(?<{c}>{regex})");
                         }
                         if let Some(with_expr) = with {
                             match vb {
-- 
2.43.0


From cd77aa04cbf21bb14286e4d50d324787800cc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:08 +0000
Subject: [PATCH 29/31] fix: do not report a deprecated type as used by its own
 derives

---
 parse-display-derive/src/syn_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index 9e90bae..2044ca9 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
 use std::collections::HashSet;
 use syn::{
@@ -143,7 +143,9 @@ pub fn impl_trait(
     wheres: &[WherePredicate],
     contents: TokenStream,
 ) -> TokenStream {
-    let ty = &input.ident;
+    // As with the built-in derives, a deprecated type is not a use of itself.
+    let mut ty = input.ident.clone();
+    ty.set_span(Span::call_site().located_at(ty.span()));
     let (impl_g, ty_g, where_clause) = input.generics.split_for_impl();
     let mut wheres = wheres.to_vec();
     if let Some(where_clause) = where_clause {
-- 
2.43.0


From d440dd9536101f281145b60748cd5a24496e399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 30/31] fix: do not report the names of fields again when new =
 .. binds them

---
 parse-display-derive/src/parser_builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index e0c9224..b1677d4 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -392,8 +392,13 @@ impl<'a> ParserBuilder<'a> {
             }
             let mut code = TokenStream::new();
             if !vars.is_empty() {
+                // A field name that is not in snake case is reported (or allowed) at the field.
+                let allow = vars
+                    .iter()
+                    .any(|var| !is_snake_case(var))
+                    .then(|| quote!(#[allow(non_snake_case)]));
                 // Bind all fields at once so that a field name never hides a name used by a later field.
-                code.extend(quote! { let (#(#vars,)*) = (#(#exprs,)*); });
+                code.extend(quote! { #allow let (#(#vars,)*) = (#(#exprs,)*); });
             }
             let crate_path = self.crate_path;
             code.extend(quote! {
@@ -758,6 +763,10 @@ const CAPTURE_NAME_EMPTY: &str = "empty";
 fn capture_name(idx: usize) -> String {
     format!("value_{idx}")
 }
+fn is_snake_case(ident: &Ident) -> bool {
+    let s = ident.to_string();
+    !s.chars().any(char::is_uppercase) && !s.trim_matches('_').contains("__")
+}
 fn capture_index(idx: usize, names: &HashMap<&str, usize>) -> usize {
     names[capture_name(idx).as_str()]
 }
-- 
2.43.0


From d533c27d32a56ac85544866ec128a927e0e5fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:44 +0000
Subject: [PATCH 31/31] fix: pass the referent to `with` formats also when the
 reference type is parenthesised or comes from a macro's $t:ty

---
 parse-display-derive/src/lib.rs       |  2 +-
 parse-display-derive/src/syn_utils.rs | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index a1a5491..ae98eb9 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1255,7 +1255,7 @@ fn set_location(ts: TokenStream, span: Span) -> TokenStream {
 }
 
 fn unref_ty(ty: &Type) -> Type {
-    if let Type::Reference(ty) = ty {
+    if let Type::Reference(ty) = peel_group(ty) {
         unref_ty(&ty.elem)
     } else {
         ty.clone()
diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index 2044ca9..212c062 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -180,17 +180,20 @@ pub fn dump_if(dump: bool, ts: &TokenStream) {
     }
 }
 
-pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
-    // A type passed to a `macro_rules!` macro as `$t:ty` is wrapped in an invisible group.
-    let mut ty = ty;
+/// The type without the parentheses and invisible groups around it.
+///
+/// A type passed to a `macro_rules!` macro as `$t:ty` is wrapped in an invisible group.
+pub fn peel_group(mut ty: &Type) -> &Type {
     loop {
         ty = match ty {
             Type::Group(ty) => &ty.elem,
             Type::Paren(ty) => &ty.elem,
-            _ => break,
+            _ => return ty,
         }
     }
-    if let Type::Path(ty) = ty {
+}
+pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
+    if let Type::Path(ty) = peel_group(ty) {
         if ty.qself.is_some() {
             return None;
         }
-- 
2.43.0

