From 27a45883e8fe372422289ce424ac5656350d703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 01/13] fix: do not implement an implied trait more than once

Multiple requested traits can imply the same trait (e.g.,
`DoubleEndedIterator, ExactSizeIterator` or `Fn, FnMut`), but the implied
trait must be implemented only once.
---
 src/enum_derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index dd85f65..f8775ef 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -266,7 +266,8 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
             for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {
-                if !exists_alias(s, &v) {
+                // Multiple traits may depend on the same trait.
+                if !exists_alias(s, &v) && !v.iter().any(|(x, _)| x == s) {
                     v.push((s, None));
                 }
             }
-- 
2.43.0


From 1b4990764068149e0a65d9eadaecf0c5d036b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 02/13] fix: do not rewrite `return` and `?` in async blocks

They exit from the async block, not from the function that
#[auto_enum] is applied to.
---
 src/auto_enum/visitor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index b046fd8..6906792 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -13,7 +13,7 @@ use crate::utils::{Attrs, Node, replace_expr};
 
 #[derive(Clone, Copy, Default)]
 struct Scope {
-    /// in closures
+    /// in closures or async blocks
     closure: bool,
     /// in try blocks
     try_block: bool,
@@ -22,10 +22,11 @@ struct Scope {
 }
 
 impl Scope {
-    // check this scope is in closures or try blocks.
+    // check this scope is in closures, async blocks, or try blocks.
     fn check_expr(&mut self, expr: &Expr) {
         match expr {
-            Expr::Closure(_) => self.closure = true,
+            // `return` and `?` in async blocks exit from the async block, not from the function.
+            Expr::Closure(_) | Expr::Async(_) => self.closure = true,
             // `?` operator in try blocks are not supported.
             Expr::TryBlock(_) => self.try_block = true,
             _ => {}
-- 
2.43.0


From d883bd1acb3ecfc642b73f27f3cc13c4126e93fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 03/13] fix: do not reserve the generic parameter name `R` in
 Coroutine derive

Use `__R` as the other derives do, so that enums that have a generic
parameter or a field type named `R` are accepted.
---
 src/derive/core/ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index f3ca46e..4288603 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -107,7 +107,7 @@ pub(crate) mod coroutine {
         let pin = quote!(::core::pin::Pin);
         let trait_ = parse_quote!(::core::ops::Coroutine);
         let mut impl_ = EnumImpl::from_trait(data, &trait_, None, parse_quote! {
-            trait Coroutine<R> {
+            trait Coroutine<__R> {
                 type Yield;
                 type Return;
             }
@@ -116,14 +116,14 @@ pub(crate) mod coroutine {
 
         let resume = data.variant_idents().zip(data.field_types()).map(|(v, ty)| {
             quote! {
-                #ident::#v(x) => <#ty as #trait_<R>>::resume(#pin::new_unchecked(x), arg),
+                #ident::#v(x) => <#ty as #trait_<__R>>::resume(#pin::new_unchecked(x), arg),
             }
         });
         impl_.items.push(parse_quote! {
             #[inline]
             fn resume(
                 self: #pin<&mut Self>,
-                arg: R,
+                arg: __R,
             ) -> ::core::ops::CoroutineState<Self::Yield, Self::Return> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#resume)* }
-- 
2.43.0


From 6ab00fa556abe3cf9dd049ce1b4d64c37726d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 04/13] fix: recognize `error::Error`

type_analysis collects `error::Error`, but enum_derive did not know it.
---
 src/derive/std/error.rs | 2 +-
 src/enum_derive.rs      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/derive/std/error.rs b/src/derive/std/error.rs
index d892df9..81e49a7 100644
--- a/src/derive/std/error.rs
+++ b/src/derive/std/error.rs
@@ -2,7 +2,7 @@
 
 use crate::derive::prelude::*;
 
-pub(crate) const NAME: &[&str] = &["Error"];
+pub(crate) const NAME: &[&str] = &["Error", "error::Error"];
 
 pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
     let ident = &data.ident;
diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index f8775ef..50ab42e 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -217,7 +217,7 @@ fn get_trait_deps(s: &str) -> Option<&'static [&'static str]> {
         #[cfg(feature = "std")]
         "BufRead" | "io::BufRead" => &["Read"],
         #[cfg(feature = "std")]
-        "Error" => &["Display", "Debug"],
+        "Error" | "error::Error" => &["Display", "Debug"],
         #[cfg(feature = "rayon")]
         "rayon::IndexedParallelIterator" => &["rayon::ParallelIterator"],
         _ => return None,
@@ -252,6 +252,8 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
             std::io::seek,
             #[cfg(feature = "std")]
             std::io::write,
+            #[cfg(feature = "std")]
+            std::error,
         }
 
         None
-- 
2.43.0


From 7b5c6e45be6ad34d4ff047b13044acfdd71d3f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 05/13] fix: support pinned traits on enums with fields that
 are known not to be Unpin

The `Unpin` implementation that is generated for traits with
`Pin<&mut Self>` receivers required `Field: Unpin`, which is rejected as a
trivially false bound if the field type does not depend on the generic
parameters (e.g., fields containing `PhantomPinned`).
---
 src/enum_derive.rs | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 50ab42e..b548f08 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -2,11 +2,11 @@
 
 use std::cell::Cell;
 
-use derive_utils::EnumData as Data;
-use proc_macro2::TokenStream;
+use derive_utils::{EnumData as Data, EnumImpl};
+use proc_macro2::{TokenStream, TokenTree};
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, ItemEnum, Path, Result, Token,
+    Error, GenericParam, ItemEnum, Path, Result, Token,
     parse::{Parse, ParseStream},
     parse_quote,
 };
@@ -262,6 +262,19 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
     get_alias(s).map_or(false, |x| v.iter().any(|(s, _)| *s == x))
 }
 
+/// Returns `true` if `tokens` of a type may mention one of the type or const parameters.
+fn mentions_param(data: &Data, tokens: TokenStream) -> bool {
+    tokens.into_iter().any(|tt| match tt {
+        TokenTree::Ident(i) => data.generics.params.iter().any(|param| match param {
+            GenericParam::Type(p) => p.ident == i,
+            GenericParam::Const(p) => p.ident == i,
+            GenericParam::Lifetime(_) => false,
+        }),
+        TokenTree::Group(g) => mentions_param(data, g.stream()),
+        TokenTree::Punct(_) | TokenTree::Literal(_) => false,
+    })
+}
+
 fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let data = syn::parse2::<Data>(input)?;
     let args = syn::parse2::<Args>(args)?.inner;
@@ -311,14 +324,19 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
         // https://github.com/taiki-e/pin-project/blob/v1.1.5/examples/struct-default-expanded.rs#L98
         // TODO: use https://github.com/taiki-e/pin-project/issues/102#issuecomment-540472282's trick.
         // TODO: https://github.com/taiki-e/pin-project/pull/357 is also needed?
-        items.extend(derive_utils::derive_trait(
-            &data,
-            &parse_quote!(::core::marker::Unpin),
-            None,
-            parse_quote! {
-                trait Unpin {}
-            },
-        ));
+        let mut impl_ = EnumImpl::new(&data);
+        impl_.set_trait(parse_quote!(::core::marker::Unpin));
+        for ty in data.field_types() {
+            impl_.push_where_predicate(if mentions_param(&data, ty.to_token_stream()) {
+                parse_quote!(#ty: ::core::marker::Unpin)
+            } else {
+                // A bound that does not depend on the generic parameters and does not hold is
+                // an error unless it is higher-ranked.
+                // https://github.com/rust-lang/rust/issues/48214
+                parse_quote!(for<'__pin> #ty: ::core::marker::Unpin)
+            });
+        }
+        items.extend(impl_.build());
 
         let item: ItemEnum = data.into();
         let name = &item.ident;
-- 
2.43.0


From 4ca13c39378e80496ada6025db2c242ff353ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 06/13] fix: do not collect the same trait more than once in
 type_analysis

`impl Iterator<Item = impl Iterator<..>>` made the generated enum implement
`Iterator` twice.
---
 src/auto_enum/type_analysis.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 7948b02..978b077 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -28,7 +28,11 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                         && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)
                     {
                         self.has_impl_trait = true;
-                        self.traits.push(ty);
+                        // The same trait may appear more than once.
+                        // (e.g., `impl Iterator<Item = impl Iterator>`)
+                        if !self.traits.iter().any(|x| x.to_token_stream().to_string() == ty_str) {
+                            self.traits.push(ty);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 4f417c0f5be4a908f470cf964d47344f7e60b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 07/13] fix: do not rewrite `break` of nested loops or blocks
 that shadow the label

`break 'a value` in a nested loop or block that is also labeled `'a` exits
from the nested one, not from the loop in the tail position.
---
 src/auto_enum/expr.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 3c277fc..27de84b 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,9 +1,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use syn::{
-    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprIf, ExprLoop, ExprMacro, ExprMatch,
-    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime, LocalInit,
-    Macro, Stmt, StmtMacro, Token,
+    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
+    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -170,6 +170,15 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
 
             let tmp = self.nested;
             match node {
+                // Stop if the label is shadowed
+                Expr::Block(ExprBlock { label: label @ Some(_), .. })
+                | Expr::ForLoop(ExprForLoop { label: label @ Some(_), .. })
+                | Expr::Loop(ExprLoop { label: label @ Some(_), .. })
+                | Expr::While(ExprWhile { label: label @ Some(_), .. })
+                    if self.compare_labels(label.as_ref().map(|l| &l.name)) =>
+                {
+                    return;
+                }
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
                 // Other loop bounds
-- 
2.43.0


From 318a55b26c00fe6280980f24409a194a2dc60623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 08/13] fix: strip impl Trait from let bindings also when the
 trait is listed explicitly

---
 src/auto_enum/type_analysis.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 978b077..99c7ff8 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -24,13 +24,16 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty = path(ty.path.segments.iter().map(|ty| ty.ident.clone().into()));
                     let ty_str = ty.to_token_stream().to_string();
                     let ty_trimmed = ty_str.replace(' ', "");
-                    if TRAITS.contains(&&*ty_trimmed)
-                        && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)
-                    {
+                    if TRAITS.contains(&&*ty_trimmed) {
                         self.has_impl_trait = true;
-                        // The same trait may appear more than once.
+                        // The same trait may be specified explicitly or appear more than once.
                         // (e.g., `impl Iterator<Item = impl Iterator>`)
-                        if !self.traits.iter().any(|x| x.to_token_stream().to_string() == ty_str) {
+                        if !self
+                            .args
+                            .iter()
+                            .chain(&*self.traits)
+                            .any(|x| x.to_token_stream().to_string() == ty_str)
+                        {
                             self.traits.push(ty);
                         }
                     }
-- 
2.43.0


From e253ef03eedcf4c219ed4884728091f9de8736dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 09/13] fix: functions whose branches are all in #[nested] or
 markers were ignored by type_analysis

---
 src/auto_enum/context.rs |  2 +-
 src/auto_enum/mod.rs     |  4 ++--
 src/auto_enum/visitor.rs | 16 ++++++++++++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index d98aeb1..ae51efe 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -24,7 +24,7 @@ use crate::utils::{Node, expr_call, path, replace_expr, unit};
 #[derive(Clone, Copy, PartialEq)]
 pub(super) enum VisitMode {
     Default,
-    Return(/* count */ usize),
+    Return(/* count of `return`, `#[nested]`, and marker macros */ usize),
     Try,
 }
 
diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index fcae069..9e5706c 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -64,7 +64,7 @@ fn expand_expr(cx: &mut Context, expr: &mut Expr) {
             if count.try_ >= 2 {
                 cx.visit_mode = VisitMode::Try;
             } else {
-                cx.visit_mode = VisitMode::Return(count.return_);
+                cx.visit_mode = VisitMode::Return(count.return_ + count.explicit);
             }
             &mut **body
         }
@@ -159,7 +159,7 @@ fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
             // `return`
             Type::ImplTrait(_) if cx.visit_last_mode != VisitLastMode::Never => {
                 let count = visitor::visit_fn(cx, &mut **block);
-                cx.visit_mode = VisitMode::Return(count.return_);
+                cx.visit_mode = VisitMode::Return(count.return_ + count.explicit);
             }
 
             // `?` operator
diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 6906792..5c2c12f 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -432,6 +432,8 @@ pub(super) fn find_nested(node: &mut impl Node) -> bool {
 pub(super) struct FnCount {
     pub(super) try_: usize,
     pub(super) return_: usize,
+    /// `#[nested]` or marker macros of the current scope.
+    pub(super) explicit: usize,
 }
 
 pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
@@ -469,6 +471,16 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
                 self.scope.foreign = true;
             }
 
+            match node {
+                Expr::Macro(ExprMacro { mac, .. })
+                    if self.cx.is_marker_macro_exact(mac)
+                        && (!self.scope.foreign || self.cx.current_marker != DEFAULT_MARKER) =>
+                {
+                    self.count.explicit += 1;
+                }
+                _ => {}
+            }
+
             visit_mut::visit_expr_mut(self, node);
 
             self.scope = tmp;
@@ -493,5 +505,9 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
 
     let mut visitor = FnVisitor { cx, scope: Scope::default(), count: FnCount::default() };
     node.visited(&mut visitor);
+    if find_nested(node) {
+        // Branches in `#[nested]` are not known yet, but there are two or more in total.
+        visitor.count.explicit += 2;
+    }
     visitor.count
 }
-- 
2.43.0


From 1dd07bad46f4a3f07f1d7d02e61768c5dc66795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 10/13] verification hook: build the macros as an ordinary
 library with --cfg auto_enums_sim

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d8c21bb..53af004 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -877,6 +877,7 @@ Please be careful if you return another traits with the same name.
 ))]
 #![forbid(unsafe_code)]
 #![allow(clippy::doc_link_with_quotes)]
+#![allow(unexpected_cfgs)] // auto_enums_sim
 
 #[cfg(all(feature = "coroutine_trait", not(feature = "unstable")))]
 compile_error!(
@@ -905,13 +906,17 @@ mod derive;
 mod enum_derive;
 mod utils;
 
+#[cfg(not(auto_enums_sim))]
 use proc_macro::TokenStream;
+// Verification hook: a normal library that expands `proc_macro2` token streams.
+#[cfg(auto_enums_sim)]
+use proc_macro2::TokenStream;
 
 /// An attribute macro like a wrapper of `#[derive]`, implementing
 /// the supported traits and passing unsupported traits to `#[derive]`.
 ///
 /// See the [crate-level documentation](crate) for details.
-#[proc_macro_attribute]
+#[cfg_attr(not(auto_enums_sim), proc_macro_attribute)]
 pub fn enum_derive(args: TokenStream, input: TokenStream) -> TokenStream {
     crate::enum_derive::attribute(args.into(), input.into()).into()
 }
@@ -919,7 +924,7 @@ pub fn enum_derive(args: TokenStream, input: TokenStream) -> TokenStream {
 /// An attribute macro for to allow multiple return types by automatically generated enum.
 ///
 /// See the [crate-level documentation](crate) for details.
-#[proc_macro_attribute]
+#[cfg_attr(not(auto_enums_sim), proc_macro_attribute)]
 pub fn auto_enum(args: TokenStream, input: TokenStream) -> TokenStream {
     crate::auto_enum::attribute(args.into(), input.into()).into()
 }
-- 
2.43.0


From 51909f502bc2498757b972393f40f9fa32164003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 11/13] fix: refer to Sized and Send by absolute paths in
 generated impls

---
 src/derive/core/convert.rs   | 4 ++--
 src/derive/core/ops.rs       | 2 +-
 src/derive/external/rayon.rs | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/derive/core/convert.rs b/src/derive/core/convert.rs
index e65d169..76acd3d 100644
--- a/src/derive/core/convert.rs
+++ b/src/derive/core/convert.rs
@@ -7,7 +7,7 @@ pub(crate) mod as_ref {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsRef), None, parse_quote! {
-            trait AsRef<__T: ?Sized> {
+            trait AsRef<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_ref(&self) -> &__T;
             }
@@ -22,7 +22,7 @@ pub(crate) mod as_mut {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsMut), None, parse_quote! {
-            trait AsMut<__T: ?Sized> {
+            trait AsMut<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_mut(&mut self) -> &mut __T;
             }
diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index 4288603..26bc8eb 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -84,7 +84,7 @@ pub(crate) mod range_bounds {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::ops::RangeBounds), None, parse_quote! {
-            trait RangeBounds<__T: ?Sized> {
+            trait RangeBounds<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn start_bound(&self) -> ::core::ops::Bound<&__T>;
                 #[inline]
diff --git a/src/derive/external/rayon.rs b/src/derive/external/rayon.rs
index 98fcbe6..793d36d 100644
--- a/src/derive/external/rayon.rs
+++ b/src/derive/external/rayon.rs
@@ -55,7 +55,7 @@ pub(crate) mod par_extend {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::rayon::iter::ParallelExtend), None, parse_quote! {
-            trait ParallelExtend<__T: Send> {
+            trait ParallelExtend<__T: ::core::marker::Send> {
                 #[inline]
                 fn par_extend<__I>(&mut self, par_iter: __I)
                 where
-- 
2.43.0


From af73a3693492dc73f8a603181488511acb926cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:32 +0000
Subject: [PATCH 12/13] fix: do not count `?` in try blocks when deciding how
 to treat a closure

---
 src/auto_enum/visitor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 5c2c12f..daf4c78 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -452,8 +452,8 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
             if !self.scope.closure && !node.any_empty_attr(NEVER) {
                 match node {
                     Expr::Try(ExprTry { expr, .. }) => {
-                        // Skip if `<expr>` is a marker macro.
-                        if !self.cx.is_marker_expr(expr) {
+                        // Skip if in a try block or `<expr>` is a marker macro.
+                        if !self.scope.try_block && !self.cx.is_marker_expr(expr) {
                             self.count.try_ += 1;
                         }
                     }
-- 
2.43.0


From f760deaa93b02b694754556d434701ecb87ebbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:50 +0000
Subject: [PATCH 13/13] fix: keep the user's span for blocks of if branches,
 whose edition decides when temporaries are dropped

---
 src/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index aa5c608..361539d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -45,8 +45,15 @@ pub(crate) fn replace_block(this: &mut Block, f: impl FnOnce(Block) -> Expr) {
     // `brace_token` of the block that passed to `f` should have `call_site` span.
     // If `f` generates unused braces containing the span of `this.brace_token`,
     // this will cause confusing warnings: https://github.com/rust-lang/rust/issues/71080
+    // (Those warnings are only for blocks that consist of one expression.)
     let stmts = mem::take(&mut this.stmts);
-    this.stmts = vec![Stmt::Expr(f(block(stmts)), None)];
+    let mut inner = block(stmts);
+    if inner.stmts.len() > 1 {
+        // The edition of this span decides whether temporaries in the last expression are dropped
+        // before or after the local variables of the block.
+        inner.brace_token = this.brace_token;
+    }
+    this.stmts = vec![Stmt::Expr(f(inner), None)];
 }
 
 pub(crate) fn path_eq(path: &syn::Path, expected_crates: &[&str], expected_path: &[&str]) -> bool {
-- 
2.43.0

