From 8eae89cb2dfa2cafcccc8abcd2bfebaf074b33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 01/10] fix: select the AVX2 escape only if the CPU and OS
 support AVX2

The dispatcher tested the AVX bit alone, so escaping executed AVX2 instructions
on processors with AVX but without AVX2 (Sandy Bridge, Ivy Bridge, Bulldozer to
Steamroller, Jaguar) and under systems that do not enable the YMM state.
---
 laby_common/src/internal/escape.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/laby_common/src/internal/escape.rs b/laby_common/src/internal/escape.rs
index 4156e49..e0626f3 100644
--- a/laby_common/src/internal/escape.rs
+++ b/laby_common/src/internal/escape.rs
@@ -100,11 +100,29 @@ fn escape_impl(feed: &str, buf: &mut Buffer) {
     type FnRaw = *mut ();
     static FN: AtomicPtr<()> = AtomicPtr::new(detect as FnRaw);
 
+    #[cfg(target_arch = "x86")]
+    use core::arch::x86::_xgetbv;
+    #[cfg(target_arch = "x86_64")]
+    use core::arch::x86_64::_xgetbv;
+
+    // Whether the operating system preserves the XMM and YMM registers. May only be called if it
+    // has enabled XSAVE.
+    #[target_feature(enable = "xsave")]
+    unsafe fn ymm_enabled() -> bool {
+        _xgetbv(0) & 0b110 == 0b110
+    }
+
     fn detect(feed: &str, buf: &mut Buffer) {
         debug_assert!(feed.len() >= 16);
-        let features = raw_cpuid::CpuId::new().get_feature_info();
+        let cpuid = raw_cpuid::CpuId::new();
+        let features = cpuid.get_feature_info();
+        let has_avx2 = cpuid
+            .get_extended_feature_info()
+            .map_or(false, |f| f.has_avx2());
         let fun = if let Some(features) = features {
-            if features.has_avx() {
+            // CPU support for AVX does not imply AVX2, and neither is usable unless the operating
+            // system has enabled the wider registers.
+            if features.has_avx() && has_avx2 && features.has_oxsave() && unsafe { ymm_enabled() } {
                 avx2::escape
             } else if features.has_sse2() {
                 sse2::escape
-- 
2.43.0


From 75dc0aa5526541754fc7a6cc26fdbc3958c3e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 02/10] fix: do not let Buffer::reserve wrap around for
 impossible sizes

With a non-zero capacity the sum could overflow in release builds, and reserve
returned as if the room had been provided instead of panicking as documented.
---
 laby_common/src/internal/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laby_common/src/internal/buffer.rs b/laby_common/src/internal/buffer.rs
index e16b2f7..3a8786f 100644
--- a/laby_common/src/internal/buffer.rs
+++ b/laby_common/src/internal/buffer.rs
@@ -230,7 +230,7 @@ impl Buffer {
     fn reserve_internal(&mut self, size: usize) {
         debug_assert!(size <= core::isize::MAX as usize);
 
-        let new_capacity = core::cmp::max(self.capacity * 2, self.capacity + size);
+        let new_capacity = core::cmp::max(self.capacity * 2, self.capacity.saturating_add(size));
         debug_assert!(new_capacity > self.capacity);
         self.data = unsafe { safe_realloc(self.data, self.capacity, new_capacity) };
         self.capacity = new_capacity;
-- 
2.43.0


From d18582ed32eec2dd5a96bec9e4b45595572efcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 03/10] fix: stop a delimited list at the first end its
 iterator reports

The iterator was polled again after an initial None, so one that yields again
after its end was rendered with a leading delimiter.
---
 laby/src/helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby/src/helpers.rs b/laby/src/helpers.rs
index 0e3e374..a64bb65 100644
--- a/laby/src/helpers.rs
+++ b/laby/src/helpers.rs
@@ -228,11 +228,11 @@ where
 
         if let Some(item) = iter.next() {
             item.render(buf);
-        }
 
-        for item in iter {
-            buf.push_str(del);
-            item.render(buf);
+            for item in iter {
+                buf.push_str(del);
+                item.render(buf);
+            }
         }
     }
 }
-- 
2.43.0


From 8d99617f8ba2b2af2876fc210a700a32772aa5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 04/10] fix: render literals with a float suffix as the float
 they denote

---
 laby_macros/src/build.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 1a00970..f17028e 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -164,8 +164,16 @@ fn try_render_literal(expr: &ExprLit) -> Option<String> {
             Lit::Byte(ref v) => render!(v.value()),
             Lit::Char(ref v) => render!(v.value()),
             Lit::Bool(ref v) => render!(v.value()),
-            Lit::Int(ref v) => render!(v.base10_parse::<u128>().ok()?),
-            Lit::Float(ref v) => render!(v.base10_parse::<f64>().ok()?),
+            Lit::Int(ref v) => match v.suffix() {
+                // an integer literal with a float suffix is a float
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                "f64" => render!(v.base10_parse::<f64>().ok()?),
+                _ => render!(v.base10_parse::<u128>().ok()?),
+            },
+            Lit::Float(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                _ => render!(v.base10_parse::<f64>().ok()?),
+            },
 
             _ => return None,
         })
-- 
2.43.0


From 1b1a032d03098d586aa695c2bd427c73bc553f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 05/10] fix: frag_match! works where the names Some and None
 mean something else

The expansion named the variants of Option by their bare names, so that a
template in whose scope an enum's variant None (or Some) is imported did not
compile, although the match or if expression alone would.
---
 laby_macros/src/matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index c5d9023..0754244 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -26,8 +26,8 @@ fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
         let name = format_ident!("__variant_{}", decls.len() + 1);
         let ref body = arm.body;
 
-        decls.push(quote!(let mut #name = None));
-        arm.body = Box::new(parse_quote!(#name = Some(#body)));
+        decls.push(quote!(let mut #name = ::core::option::Option::None));
+        arm.body = Box::new(parse_quote!(#name = ::core::option::Option::Some(#body)));
         vars.push(name);
     }
 
@@ -47,8 +47,8 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
         let mut add = |block: &mut Block| {
             let name = format_ident!("__variant_{}", decls.len() + 1);
 
-            decls.push(quote!(let mut #name = None));
-            *block = parse_quote!({ #name = Some(#block) });
+            decls.push(quote!(let mut #name = ::core::option::Option::None));
+            *block = parse_quote!({ #name = ::core::option::Option::Some(#block) });
             vars.push(name);
         };
 
-- 
2.43.0


From f5fc8209bd7ac1e9e3877c9d5d2cd3398f6828d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 06/10] fix: an attribute named by a raw identifier is not
 rendered with r#

input!(r#type = "text") rendered <input r#type="text">.
---
 laby_macros/src/build.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index f17028e..ad09665 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -14,8 +14,8 @@ use laby_common::{internal::Buffer, Render};
 use proc_macro2::{Ident, Literal, TokenStream};
 use quote::quote;
 use syn::{
-    parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr, ExprAssign,
-    ExprLit, Lit, Stmt,
+    ext::IdentExt, parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr,
+    ExprAssign, ExprLit, Lit, Stmt,
 };
 
 pub fn build_node(element: Element, stream: TokenStream) -> syn::Result<Node> {
@@ -136,11 +136,12 @@ fn try_unwrap_literal(expr: &Expr) -> Option<&ExprLit> {
     }
 }
 
-fn try_unwrap_ident(expr: &Expr) -> Option<&Ident> {
+fn try_unwrap_ident(expr: &Expr) -> Option<Ident> {
     match expr {
         Expr::Path(expr) if expr.attrs.len() == 0 => {
             if let Some(ident) = expr.path.get_ident() {
-                Some(ident)
+                // `r#type` names the attribute `type`
+                Some(ident.unraw())
             } else {
                 None
             }
@@ -190,7 +191,7 @@ fn set_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
     if let Some(value) = try_unwrap_literal(&left)
         .and_then(try_render_literal)
-        .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+        .or_else(|| try_unwrap_ident(&left).as_ref().map(ToString::to_string))
     {
         node.render.push_str(value);
     } else {
@@ -226,7 +227,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
             if let Some(value) = try_unwrap_literal(&left)
                 .and_then(try_render_literal)
-                .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+                .or_else(|| try_unwrap_ident(&left).as_ref().map(ToString::to_string))
             {
                 node.render.push_str(value);
             } else {
@@ -240,7 +241,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
         if let Some(value) = try_unwrap_literal(&left)
             .and_then(try_render_literal)
-            .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+            .or_else(|| try_unwrap_ident(&left).as_ref().map(ToString::to_string))
         {
             let value = Literal::string(&format!(" {}", value));
             node.render.push_expr(quote!(
-- 
2.43.0


From b51b63672db7da01974c6919ca0110467e015211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:57 +0000
Subject: [PATCH 07/10] fix: a component with a where clause can be called

---
 laby_macros/src/component.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 13dc4ec..cb61edb 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -26,9 +26,12 @@ pub fn generate_component_macro(
     Parser::parse2(Nothing::parse, args)?;
 
     let mut func = Parser::parse2(ItemFn::parse, stream)?;
-    let func_sig = func.sig.clone();
+    let mut func_sig = func.sig.clone();
     let func_name = func_sig.ident.clone();
 
+    // a call needs no bounds, and a trailing where clause would extend into the arguments
+    func_sig.generics.where_clause = None;
+
     for arg in func.sig.inputs.iter_mut() {
         let PatType { ref mut attrs, .. } = unwrap_typed_arg(arg)?;
 
-- 
2.43.0


From cace2aa509c43512780ceef1784771f0c98d3175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 08/10] fix: keep variables of frag_match! apart from the
 caller's

---
 laby_macros/src/matching.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index 0754244..7f7e9ff 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -6,24 +6,29 @@
 //
 //   https://opensource.org/licenses/MIT
 //
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
 use syn::{
     parse::{Parse, Parser},
-    parse_quote, Block, Expr, ExprBlock, ExprIf, ExprMatch,
+    parse_quote, Block, Expr, ExprBlock, ExprIf, ExprMatch, Ident,
 };
 
 pub fn generate_frag_match(stream: TokenStream) -> syn::Result<TokenStream> {
     generate_from_if(stream.clone()).or_else(|_| generate_from_match(stream))
 }
 
+/// A variable that the caller's own code cannot refer to.
+fn variant_ident(n: usize) -> Ident {
+    format_ident!("__variant_{}", n, span = Span::mixed_site())
+}
+
 fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
     let mut expr = Parser::parse2(ExprMatch::parse, stream)?;
     let mut vars = Vec::new();
     let mut decls = Vec::new();
 
     for arm in expr.arms.iter_mut() {
-        let name = format_ident!("__variant_{}", decls.len() + 1);
+        let name = variant_ident(decls.len() + 1);
         let ref body = arm.body;
 
         decls.push(quote!(let mut #name = ::core::option::Option::None));
@@ -45,7 +50,7 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
 
     {
         let mut add = |block: &mut Block| {
-            let name = format_ident!("__variant_{}", decls.len() + 1);
+            let name = variant_ident(decls.len() + 1);
 
             decls.push(quote!(let mut #name = ::core::option::Option::None));
             *block = parse_quote!({ #name = ::core::option::Option::Some(#block) });
-- 
2.43.0


From 2a556d3535c81b537a7fc9e329afd20168a95e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 09/10] fix: do not drop attributes of nested markup and
 boolean values

---
 laby_macros/src/build.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index ad09665..529f9b6 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -61,7 +61,7 @@ fn build_inner(element: Element, stream: TokenStream, node: &mut Node) -> syn::R
 
         for attr in attrs {
             match *attr.right {
-                Expr::Macro(ref expr) => {
+                Expr::Macro(ref expr) if expr.attrs.len() == 0 => {
                     if let Some(ident) = expr.mac.path.get_ident() {
                         if ident == "bool" {
                             let mut attr = attr.clone();
@@ -93,7 +93,7 @@ fn build_inner(element: Element, stream: TokenStream, node: &mut Node) -> syn::R
             }
 
             match child {
-                Expr::Macro(ref expr) => {
+                Expr::Macro(ref expr) if expr.attrs.len() == 0 => {
                     if let Some(ident) = expr.mac.path.get_ident() {
                         if let Some(element) = get_element(ident.to_string()) {
                             // flatten nested markup
-- 
2.43.0


From 48ffce0360769af1b54e3d11dc7689fc6720d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:58 +0000
Subject: [PATCH 10/10] fix: let what render! is given borrow from temporaries,
 as documented

---
 laby/src/helpers.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/laby/src/helpers.rs b/laby/src/helpers.rs
index a64bb65..f514ced 100644
--- a/laby/src/helpers.rs
+++ b/laby/src/helpers.rs
@@ -142,10 +142,9 @@ macro_rules! render {
         buf.into_string()
     }};
 
-    ($($expr:expr),* $(,)?) => {{
-        let frag = $crate::frag!($($expr),*);
-        $crate::render!(frag)
-    }};
+    ($($expr:expr),* $(,)?) => {
+        $crate::render!($crate::frag!($($expr),*))
+    };
 }
 
 /// Wraps an [`Iterator`], making it implement [`Render`].
-- 
2.43.0

