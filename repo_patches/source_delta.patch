From aa832c396e5e635e22a926eec53bbc1b788c0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 1/4] fix: print infinite float literals instead of panicking

A float literal too large for an f64 parses successfully as an infinite
value, but printing it panicked in Literal::f64_unsuffixed().
---
 parsel/src/ast.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 328dde1..322501a 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -2550,7 +2550,16 @@ impl LitUint {
 
 impl LitFloat {
     pub fn token(&self) -> Literal {
-        let mut lit = Literal::f64_unsuffixed(self.value.into_inner());
+        let value = self.value.into_inner();
+
+        // `Literal::f64_unsuffixed()` panics for infinities. However, literals too
+        // large for an `f64` parse as infinite values, so print them as such a literal.
+        let mut lit = if value.is_finite() {
+            Literal::f64_unsuffixed(value)
+        } else {
+            let repr = if value.is_sign_negative() { "-1e999" } else { "1e999" };
+            Literal::from_str(repr).expect("unparseable float literal")
+        };
         lit.set_span(self.span);
         lit
     }
-- 
2.43.0


From 7d4e82c931533d0d0e66bd23040406c161522ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 2/4] fix: let enum variants have a field named tokens when
 deriving ToTokens

The bindings of the named fields of a variant shadowed the parameter
of the generated to_tokens(), so the generated code did not compile.
---
 parsel_derive/src/to_tokens.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 3db27ae..5b966e4 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -87,17 +87,15 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
         .iter()
         .map(|variant| {
             let variant_name = &variant.ident;
-            let field_names = match &variant.fields {
+            let field_names: Vec<_> = match &variant.fields {
                 Fields::Unit => Vec::new(),
+                // must not be called `tokens`, so they aren't named after the fields
                 Fields::Named(fields) => {
                     fields.named
                         .iter()
-                        .map(|field| {
-                            field.ident.clone().ok_or_else(|| {
-                                Error::new(field.span(), "unnamed field in named struct")
-                            })
-                        })
-                        .collect::<Result<_>>()?
+                        .enumerate()
+                        .map(|(i, _)| format_ident!("parsel_field_{}_{}", variant_name, i))
+                        .collect()
                 }
                 Fields::Unnamed(fields) => {
                     fields.unnamed
@@ -109,7 +107,10 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
             };
             let bindings = match &variant.fields {
                 Fields::Unit => TokenStream::new(),
-                Fields::Named(_) => quote!({ #(#field_names,)* }),
+                Fields::Named(fields) => {
+                    let names = fields.named.iter().map(|field| &field.ident);
+                    quote!({ #(#names: #field_names,)* })
+                }
                 Fields::Unnamed(_) => quote!{ (#(#field_names),*) },
             };
 
-- 
2.43.0


From ccf7cca011a59865e6ece562b595387742548a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 3/4] fix: let empty enums derive ToTokens

Matching on a reference to an empty enum without any arms does not compile.
---
 parsel_derive/src/to_tokens.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 5b966e4..ff3878d 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -73,6 +73,11 @@ fn expand_struct(data: &DataStruct) -> Result<TokenStream> {
 fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let body = expand_variants(ty_name, data)?;
 
+    // A reference is always considered inhabited, even if the referent isn't.
+    if data.variants.is_empty() {
+        return Ok(quote!(match *self {}));
+    }
+
     Ok(quote!{
         match self {
             #body
-- 
2.43.0


From 4670512b17f4be73d82d2700bd37b56f9a92f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 4/4] fix: do not indent invisible groups in the middle of a
 line

---
 parsel/src/util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index d104f1b..6fe6f20 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -402,6 +402,10 @@ where
     /// Format a `TokenStream` respecting the specified indentation.
     pub fn write(&mut self, stream: TokenStream) -> fmt::Result {
         self.write_indent()?;
+        self.write_tokens(stream)
+    }
+
+    fn write_tokens(&mut self, stream: TokenStream) -> fmt::Result {
         let mut spacing = Spacing::Joint;
         let mut iter = stream.into_iter().peekable();
 
@@ -431,7 +435,8 @@ where
                     let inner_stream = group.stream();
                     let (open, close) = match group.delimiter() {
                         Delimiter::None => {
-                            self.write(inner_stream)?;
+                            // the contents continue the current line
+                            self.write_tokens(inner_stream)?;
                             continue;
                         }
                         Delimiter::Parenthesis => ('(', ')'),
-- 
2.43.0

