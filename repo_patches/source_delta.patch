From 7c3e103142a37539264f629e2fbc748aa7fc61ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 1/5] Add an entry point for simulated expansion, guarded by
 cfg thiserror_sim

---
 impl/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index 7f3767e..d9dfec8 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -15,6 +15,7 @@
     clippy::too_many_lines,
     clippy::wrong_self_convention
 )]
+#![allow(unknown_lints, unexpected_cfgs)]
 
 extern crate proc_macro;
 
@@ -29,11 +30,26 @@ mod scan_expr;
 mod unraw;
 mod valid;
 
+#[cfg(not(thiserror_sim))]
 use proc_macro::TokenStream;
-use syn::{parse_macro_input, DeriveInput};
+#[cfg(not(thiserror_sim))]
+use syn::parse_macro_input;
+use syn::DeriveInput;
 
+#[cfg(not(thiserror_sim))]
 #[proc_macro_derive(Error, attributes(backtrace, error, from, source))]
 pub fn derive_error(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
     expand::derive(&input).into()
 }
+
+// Entry point for running the expansion outside of a compiler, under a
+// simulator. Not part of any normal build.
+#[cfg(thiserror_sim)]
+#[doc(hidden)]
+pub fn derive_error(input: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
+    match syn::parse2::<DeriveInput>(input) {
+        Ok(input) => expand::derive(&input),
+        Err(err) => err.into_compile_error(),
+    }
+}
-- 
2.43.0


From 806a8168c7cf352894a0f1c45f06ff3f3e0175ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 2/5] fix: recognize the format trait of a shorthand
 placeholder that ends in whitespace

---
 impl/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 1da28c1..438a002 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -90,7 +90,7 @@ impl Display<'_> {
                 None => return Ok(()),
             };
             let mut bonus_display = false;
-            let bound = match read[..end_spec].chars().next_back() {
+            let bound = match read[..end_spec].trim_end().chars().next_back() {
                 Some('?') => Trait::Debug,
                 Some('o') => Trait::Octal,
                 Some('x') => Trait::LowerHex,
-- 
2.43.0


From ac9e5d9aa2353a8d5fc157a28b976174e2307e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 3/5] fix: recognize the format trait of a shorthand
 placeholder filled with closing braces

---
 impl/src/fmt.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 438a002..5d85dbe 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -85,7 +85,7 @@ impl Display<'_> {
                 }
                 _ => continue,
             };
-            let end_spec = match read.find('}') {
+            let end_spec = match find_end_spec(read) {
                 Some(end_spec) => end_spec,
                 None => return Ok(()),
             };
@@ -295,6 +295,15 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     ident
 }
 
+fn find_end_spec(read: &str) -> Option<usize> {
+    // A closing brace followed by an alignment is the fill character.
+    let skip = match read.strip_prefix(":}") {
+        Some(rest) if rest.starts_with(['<', '^', '>']) => 2,
+        _ => 0,
+    };
+    read[skip..].find('}').map(|end| skip + end)
+}
+
 fn between<'a>(begin: ParseStream<'a>, end: ParseStream<'a>) -> TokenStream {
     let end = end.cursor();
     let mut cursor = begin.cursor();
-- 
2.43.0


From d3a8957b64ec4c7893b4d0ae757eec7ef7157396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 4/5] fix: recognize shorthand placeholders that name a field
 with non-ASCII characters

---
 impl/src/fmt.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 5d85dbe..b5034cb 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -65,12 +65,12 @@ impl Display<'_> {
                         Err(_) => return Ok(()),
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' => {
+                _ if is_ident_char(next) => {
                     if read.starts_with("r#") {
                         continue;
                     }
                     let repr = take_ident(&mut read);
-                    if repr == "_" {
+                    if repr == "_" || !repr.is_ascii() && syn::parse_str::<Ident>(repr).is_err() {
                         // Invalid. Let rustc produce the diagnostic.
                         out += repr;
                         continue;
@@ -286,7 +286,7 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     let mut ident_len = 0;
     for ch in read.chars() {
         match ch {
-            'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => ident_len += 1,
+            _ if is_ident_char(ch) => ident_len += ch.len_utf8(),
             _ => break,
         }
     }
@@ -295,6 +295,13 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     ident
 }
 
+fn is_ident_char(ch: char) -> bool {
+    match ch {
+        'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => true,
+        _ => !ch.is_ascii() && !ch.is_whitespace(),
+    }
+}
+
 fn find_end_spec(read: &str) -> Option<usize> {
     // A closing brace followed by an alignment is the fill character.
     let skip = match read.strip_prefix(":}") {
-- 
2.43.0


From d40c9f90d6b902479248989f771479b5423d72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 5/5] fix: keep generated format variables apart from fields of
 the same name

#[error("{a} {}", .__display_a)] on a struct with the fields a and
__display_a showed the value of a twice, because the local made for {a}
shadowed the one bound to the field __display_a.
---
 impl/src/fmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index b5034cb..0aa1c33 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -128,7 +128,9 @@ impl Display<'_> {
                     format_ident!("{}_{}", formatvar_prefix, ident.to_string())
                 }
             });
-            while user_named_args.contains(&formatvar) {
+            while user_named_args.contains(&formatvar)
+                || member_index.contains_key(&MemberUnraw::Named(formatvar.clone()))
+            {
                 formatvar = IdentUnraw::new(format_ident!("_{}", formatvar.to_string()));
             }
             formatvar.set_span(span);
-- 
2.43.0

