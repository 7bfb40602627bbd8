From d1a1b1fd4d5ced1a1aa8682f80e1af5d02bcedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 01/13] fix: walk the left-hand side of assignments

Hooks in an assignee such as `self.slots.get_mut(i)?.value = x` were silently
dropped because only the right-hand side was visited.
---
 hooq-macros/src/impls/walker/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 0994516..e5c3109 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -492,6 +492,7 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 new_context: context,
             } = handle_inert_attrs(&mut expr_assign.attrs, context)?;
 
+            walk_expr(&mut expr_assign.left, &context)?;
             walk_expr(&mut expr_assign.right, &context)
         }
         Expr::Async(expr_async) => {
-- 
2.43.0


From 02b5a0e01f037371cc09fd033c373231e4dbef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 02/13] fix: handle inert attributes on match arms

`#[hooq::...]` on a match arm was left in the output, where rustc rejects it.
---
 hooq-macros/src/impls/walker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index e5c3109..10bd998 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -807,6 +807,11 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 .arms
                 .iter_mut()
                 .map(|arm| {
+                    let HandleInertAttrsResult {
+                        is_skipped: _,
+                        new_context: context,
+                    } = handle_inert_attrs(&mut arm.attrs, &context)?;
+
                     if let Some((_, guard)) = arm.guard.as_mut() {
                         walk_expr(guard, &context)?;
                     }
-- 
2.43.0


From 75a3595151e003f93f6bd9c9cfb889b7ea68f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 03/13] fix: a nested #[hooq::skip] no longer cancels an
 enclosing #[hooq::skip_all]

The inner attribute replaced SkipAll by SkipSameScope, which the next
sub-scope then reset, so hooks reappeared inside the skipped expression.
---
 hooq-macros/src/impls/inert_attr/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index e915345..d4c89ce 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -222,8 +222,13 @@ impl HookContext {
     }
 
     pub fn updated_by_inert_attr(parent_context: &HookContext, inert_attr: InertAttribute) -> Self {
+        let skip_status = match &**parent_context.local_context.skip_status {
+            // skip_all は内側の skip では弱められない
+            Some(SkipStatus::SkipAll) => None,
+            _ => inert_attr.get_skip_status(),
+        };
         let skip_status = LocalContextField::from_parent(
-            inert_attr.get_skip_status().map(Option::Some),
+            skip_status.map(Option::Some),
             &parent_context.local_context.skip_status,
         );
         let InertAttribute {
-- 
2.43.0


From a18060f1b6fcf0a427a32cbcf0bd2b369478209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 04/13] fix: a flavor table without trait_uses keeps the
 inherited ones

---
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 14 ++++++++------
 hooq-macros/src/impls/flavor/toml_load/mod.rs   |  3 +--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index 9e44bc2..85c6e98 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -79,12 +79,14 @@ fn update_flavor_inner(
 
         let mut ignore_tail_expr_idents_setting = None;
 
-        let trait_uses = trait_uses
-            .into_iter()
-            .map(|path| syn::parse_str::<Path>(&path))
-            .collect::<syn::Result<Vec<_>>>()
-            .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
-        flavor.trait_uses = trait_uses;
+        if let Some(trait_uses) = trait_uses {
+            let trait_uses = trait_uses
+                .into_iter()
+                .map(|path| syn::parse_str::<Path>(&path))
+                .collect::<syn::Result<Vec<_>>>()
+                .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
+            flavor.trait_uses = trait_uses;
+        }
 
         if let Some(method) = method {
             let method_stream = syn::parse_str::<TokenStream>(&method)
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index f172b7a..3cc0530 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -12,8 +12,7 @@ pub struct HooqToml {
 
 #[derive(Deserialize, Debug, Clone)]
 pub struct FlavorTable {
-    #[serde(default)]
-    pub trait_uses: Vec<String>,
+    pub trait_uses: Option<Vec<String>>,
     pub method: Option<String>,
     pub hook_targets: Option<Vec<String>>,
     pub tail_expr_idents: Option<Vec<String>>,
-- 
2.43.0


From af8510c52fe138c024548431c896972a768175fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 05/13] fix: report a `$` that ends a method or a group instead
 of dropping it

---
 hooq-macros/src/impls/method/render/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 5a9be92..ddd3f29 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -95,8 +95,11 @@ impl HookInfo<'_> {
     ) -> syn::Result<TokenStream> {
         let mut res: TokenStream = TokenStream::new();
         let mut next_is_replace_target = false;
+        let mut last_span = q_span;
 
         for tt in ts.into_iter() {
+            last_span = tt.span();
+
             match tt {
                 TokenTree::Punct(punct) => {
                     if next_is_replace_target {
@@ -152,6 +155,10 @@ impl HookInfo<'_> {
             }
         }
 
+        if next_is_replace_target {
+            return Err(syn::Error::new(last_span, "expected identifier after `$`"));
+        }
+
         Ok(res)
     }
 
-- 
2.43.0


From cfb9bb289dc18e78c29e99d826aaf73d218a110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 06/13] fix: report a method that does not form an expression
 instead of panicking

---
 hooq-macros/src/impls/method/render/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index ddd3f29..2995cd9 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -3,8 +3,8 @@ use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
-use quote::ToTokens;
-use syn::{Expr, Token, parse_quote};
+use quote::{ToTokens, quote};
+use syn::{Expr, Token, parse_quote, parse2};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
@@ -46,9 +46,9 @@ impl HookInfo<'_> {
                 let method = spanned(method, q_span);
 
                 (
-                    parse_quote! {
+                    parse2(quote! {
                         #expr #dot #method
-                    },
+                    })?,
                     exc,
                 )
             }
@@ -73,9 +73,9 @@ impl HookInfo<'_> {
                 let method = spanned(method, q_span);
 
                 (
-                    parse_quote! {
+                    parse2(quote! {
                         #method
-                    },
+                    })?,
                     exc,
                 )
             }
-- 
2.43.0


From 594c7b4ad9742c7a105c7e37abd431f96051d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 07/13] fix: report the same flavor error on every compilation

---
 hooq-macros/src/impls/flavor/mod.rs             | 2 ++
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 4 ++--
 hooq-macros/src/impls/flavor/toml_load/mod.rs   | 8 ++++----
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/mod.rs b/hooq-macros/src/impls/flavor/mod.rs
index 57b7c49..977cf95 100644
--- a/hooq-macros/src/impls/flavor/mod.rs
+++ b/hooq-macros/src/impls/flavor/mod.rs
@@ -200,6 +200,8 @@ impl FlavorStore {
             collect_names(flavor, name, &mut names);
         }
 
+        names.sort();
+
         names
     }
 }
diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index 85c6e98..3df93d3 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::rc::Rc;
 
 use proc_macro2::TokenStream;
@@ -34,7 +34,7 @@ fn split_include_or_not_include(idents: Vec<String>) -> (Vec<String>, Vec<String
 
 fn update_flavor_inner(
     flavors: &mut HashMap<String, Flavor>,
-    flavor_tables: HashMap<String, FlavorTable>,
+    flavor_tables: BTreeMap<String, FlavorTable>,
     base_flavor: &Flavor,
 ) -> Result<(), String> {
     for (
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index 3cc0530..d77dffd 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use serde::Deserialize;
 
@@ -7,7 +7,7 @@ pub mod apply;
 #[derive(Deserialize, Debug, Clone)]
 pub struct HooqToml {
     #[serde(flatten)]
-    pub flavors: HashMap<String, FlavorTable>,
+    pub flavors: BTreeMap<String, FlavorTable>,
 }
 
 #[derive(Deserialize, Debug, Clone)]
@@ -20,9 +20,9 @@ pub struct FlavorTable {
     pub result_types: Option<Vec<String>>,
     pub hook_in_macros: Option<bool>,
     #[serde(default)]
-    pub bindings: HashMap<String, String>,
+    pub bindings: BTreeMap<String, String>,
     #[serde(flatten)]
-    pub sub_flavors: HashMap<String, FlavorTable>,
+    pub sub_flavors: BTreeMap<String, FlavorTable>,
 }
 
 #[cfg(test)]
-- 
2.43.0


From c0c3df6b8e0057d8e89e055b8e153a63a64e3dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 08/13] fix: $hooq_meta and $bindings follow a renamed hooq
 dependency

---
 hooq-macros/src/impls/method/render/mod.rs         |  7 +++++--
 hooq-macros/src/impls/utils/get_hooq_crate_name.rs | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 2995cd9..ce90801 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -8,6 +8,7 @@ use syn::{Expr, Token, parse_quote, parse2};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
+use crate::impls::utils::get_hooq_crate_name::get_hooq_facade_name;
 
 mod meta_vars;
 
@@ -191,6 +192,7 @@ impl HookInfo<'_> {
     }
 
     fn get_bindings_token_stream(&self) -> TokenStream {
+        let hooq = get_hooq_facade_name();
         let tuples = self
             .available_bindings()
             .into_iter()
@@ -202,7 +204,7 @@ impl HookInfo<'_> {
                         let expr = ::std::string::ToString::to_string(#expr);
                         let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new(#v);
 
-                        ::hooq::BindingPayload {
+                        ::#hooq::BindingPayload {
                             expr,
                             value,
                         }
@@ -309,9 +311,10 @@ impl HookInfo<'_> {
                 let source_str = self.source_tokenstream.to_string();
                 let count = self.get_count();
                 let bindings = self.get_bindings_token_stream();
+                let hooq = get_hooq_facade_name();
 
                 Ok(parse_quote! {
-                    ::hooq::HooqMeta {
+                    ::#hooq::HooqMeta {
                         line: #line,
                         column: #column,
                         path: #path,
diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index faaaba4..7a97dc3 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -1,7 +1,8 @@
 use std::sync::OnceLock;
 
 use proc_macro_crate::{FoundCrate, crate_name};
-use syn::Path;
+use proc_macro2::Span;
+use syn::{Ident, Path};
 
 pub fn get_hooq_crate_name() -> &'static str {
     static RES: OnceLock<String> = OnceLock::new();
@@ -17,6 +18,16 @@ pub fn get_hooq_crate_name() -> &'static str {
     })
 }
 
+/// Name of the facade crate, which defines `HooqMeta` and `BindingPayload`.
+pub fn get_hooq_facade_name() -> Ident {
+    let crate_name = match get_hooq_crate_name() {
+        "hooq_macros" => "hooq",
+        crate_name => crate_name,
+    };
+
+    Ident::new(crate_name, Span::call_site())
+}
+
 pub fn get_source_excerpt_helpers_name_space() -> Path {
     let crate_name = get_hooq_crate_name();
 
-- 
2.43.0


From 35373ec22d42e9d644b63acd68c3c5876af47d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 09/13] fix: insert the method after the whole hooked
 expression, not after its last operand

---
 hooq-macros/src/impls/method/render/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index ce90801..37d203e 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -19,6 +19,19 @@ fn get_file_name(q_span: Span) -> String {
     file.to_string()
 }
 
+/// `.method()` binds tighter than these, e.g. `*x.method()` is `*(x.method())`.
+fn as_receiver(expr: &Expr) -> TokenStream {
+    match expr {
+        Expr::Binary(_)
+        | Expr::Cast(_)
+        | Expr::Closure(_)
+        | Expr::Range(_)
+        | Expr::Reference(_)
+        | Expr::Unary(_) => quote! { (#expr) },
+        _ => expr.to_token_stream(),
+    }
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -45,10 +58,11 @@ impl HookInfo<'_> {
             Method::Insert(dot, method_template, exc) => {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
                 let method = spanned(method, q_span);
+                let receiver = as_receiver(expr);
 
                 (
                     parse2(quote! {
-                        #expr #dot #method
+                        #receiver #dot #method
                     })?,
                     exc,
                 )
-- 
2.43.0


From d7008b6fb66b98a5c447474072fb8328467998f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 10/13] fix: keep inner attributes of items inside a macro call

---
 hooq-macros/src/impls/walker/walk_macro.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/walker/walk_macro.rs b/hooq-macros/src/impls/walker/walk_macro.rs
index e7926c1..4d53947 100644
--- a/hooq-macros/src/impls/walker/walk_macro.rs
+++ b/hooq-macros/src/impls/walker/walk_macro.rs
@@ -46,14 +46,12 @@ fn handle_token_stream(
         .into_iter()
         .map(|(eval, punct)| {
             let eval_hooked = match eval {
-                Evaluable::File(file) => file
-                    .items
-                    .into_iter()
-                    .map(|mut item| {
-                        walk_item(&mut item, context)?;
-                        Ok(item.into_token_stream())
-                    })
-                    .collect::<syn::Result<_>>()?,
+                Evaluable::File(mut file) => {
+                    for item in &mut file.items {
+                        walk_item(item, context)?;
+                    }
+                    file.into_token_stream()
+                }
                 Evaluable::Expr(mut expr) => {
                     walk_expr(&mut expr, context)?;
                     expr.into_token_stream()
-- 
2.43.0


From 8fd1d49727bd0eb3bcfad99e9df87e77990d1d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 11/13] fix: do not keep the name of the hooq crate across
 expansions

rust-analyzer expands the macros of several crates in one process. The name
found for the first crate was used for all of them, although a dependency may
be renamed differently in each. proc-macro-crate caches per manifest directory
by itself.
---
 .../src/impls/utils/get_hooq_crate_name.rs    | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index 7a97dc3..1d0d1c5 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -1,26 +1,24 @@
-use std::sync::OnceLock;
-
 use proc_macro_crate::{FoundCrate, crate_name};
 use proc_macro2::Span;
 use syn::{Ident, Path};
 
-pub fn get_hooq_crate_name() -> &'static str {
-    static RES: OnceLock<String> = OnceLock::new();
-
-    RES.get_or_init(|| {
-        let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
-
-        match found_crate {
-            Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
-            Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
-            Err(_) => "hooq".to_string(),
-        }
-    })
+// NOTE:
+// rust-analyzer expands macros of several crates in one process, so the name must not be
+// kept across expansions (`crate_name` itself caches per manifest directory)
+pub fn get_hooq_crate_name() -> String {
+    let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
+
+    match found_crate {
+        Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
+        Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
+        Err(_) => "hooq".to_string(),
+    }
 }
 
 /// Name of the facade crate, which defines `HooqMeta` and `BindingPayload`.
 pub fn get_hooq_facade_name() -> Ident {
-    let crate_name = match get_hooq_crate_name() {
+    let crate_name = get_hooq_crate_name();
+    let crate_name = match crate_name.as_str() {
         "hooq_macros" => "hooq",
         crate_name => crate_name,
     };
@@ -31,7 +29,7 @@ pub fn get_hooq_facade_name() -> Ident {
 pub fn get_source_excerpt_helpers_name_space() -> Path {
     let crate_name = get_hooq_crate_name();
 
-    let source_excerpt_helpers_name_space = match crate_name {
+    let source_excerpt_helpers_name_space = match crate_name.as_str() {
         "hooq_macros" => "",
         _ => "::source_excerpt_helpers",
     };
-- 
2.43.0


From e0e5abe85e15a5ec7930024e6261a3e3cfd847dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 12/13] fix: @padding = "top" adds padding above the excerpt
 only

---
 hooq-macros/src/impls/utils/source_excerpt_macros.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hooq-macros/src/impls/utils/source_excerpt_macros.rs b/hooq-macros/src/impls/utils/source_excerpt_macros.rs
index 3e17bea..d58ef6a 100644
--- a/hooq-macros/src/impls/utils/source_excerpt_macros.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt_macros.rs
@@ -261,6 +261,7 @@ pub fn excerpted_pretty_stringify(ts: TokenStream) -> syn::Result<TokenStream> {
     match padding {
         Some(Padding::Top) => {
             excerpt_setting.pretty_str_settings.top_padding = true;
+            excerpt_setting.pretty_str_settings.bottom_padding = false;
         }
         Some(Padding::Bottom) => {
             excerpt_setting.pretty_str_settings.bottom_padding = true;
-- 
2.43.0


From 3b43c99729fd4cb97e5b2f7affb1c1086bcc1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 13/13] fix: keep the attributes of a `?` that the method
 consumes

With consume-question, `#[cfg(..)] f()?;` lost its attributes together with
the `?`, so that a statement that is configured out was compiled all the same.
---
 hooq-macros/src/impls/walker/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 10bd998..b3a8dfc 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -1,9 +1,9 @@
 use quote::ToTokens;
 use syn::spanned::Spanned;
 use syn::{
-    Expr, ExprCall, ExprMacro, ExprPath, ImplItem, ImplItemConst, ImplItemMacro, Item, ItemConst,
-    ItemMacro, ItemMod, ItemStatic, Local, LocalInit, Stmt, StmtMacro, TraitItem, TraitItemConst,
-    TraitItemFn, TraitItemMacro,
+    Expr, ExprCall, ExprMacro, ExprParen, ExprPath, ImplItem, ImplItemConst, ImplItemMacro, Item,
+    ItemConst, ItemMacro, ItemMod, ItemStatic, Local, LocalInit, Stmt, StmtMacro, TraitItem,
+    TraitItemConst, TraitItemFn, TraitItemMacro,
 };
 
 use crate::impls::inert_attr::context::{HookContext, HookTargetKind};
@@ -422,8 +422,13 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 )?;
 
                 match exc {
-                    // ? を消去
-                    Some(_) => Some(*expr_try.expr.clone()),
+                    // ? を消去 (? に付いていた属性は残す)
+                    Some(_) if expr_try.attrs.is_empty() => Some(*expr_try.expr.clone()),
+                    Some(_) => Some(Expr::Paren(ExprParen {
+                        attrs: std::mem::take(&mut expr_try.attrs),
+                        paren_token: Default::default(),
+                        expr: expr_try.expr.clone(),
+                    })),
                     // ? を残す
                     None => None,
                 }
-- 
2.43.0

