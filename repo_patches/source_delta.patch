From 33a73cef95d204b7a4f207600556924d3e829785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:31 +0000
Subject: [PATCH 1/7] fix: paren() no longer prints to stdout for unary
 expressions

---
 doctor-syn/src/transformation/paren.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doctor-syn/src/transformation/paren.rs b/doctor-syn/src/transformation/paren.rs
index 4d9ef23..9e7ccdc 100644
--- a/doctor-syn/src/transformation/paren.rs
+++ b/doctor-syn/src/transformation/paren.rs
@@ -26,7 +26,6 @@ impl Visitor for Paren {
                 make_binary(left, op, right)
             }
             Expr::Unary(ExprUnary { op, expr, .. }) => {
-                println!("HERE");
                 let expr = parenthesise_op(*expr.clone());
                 make_unary(op, expr)
             }
-- 
2.43.0


From 2de970d5a31dc54cedea4ff398b863a2bb9c8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:31 +0000
Subject: [PATCH 2/7] fix: libmgen diagnostics go to stderr, not into the
 generated code on stdout

---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/main.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 0d5d848..7d8bb48 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -28,7 +28,7 @@ pub fn get_functions_and_deps<'a>(names: &'a Vec<String>, exclude: &'a Vec<Strin
     while !stack.is_empty() {
         let name = stack.pop().unwrap();
         if exclude.contains(&name) {
-            println!("ignoring {}", name);
+            eprintln!("ignoring {}", name);
             continue;
         }
         if let Some(f) = FUNCTIONS.iter()
diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index 173e777..4309b3f 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -348,7 +348,7 @@ fn generate() {
 fn main() {
     let opt = Opt::from_args();
     if opt.debug {
-        println!("opt={:?}", opt);
+        eprintln!("opt={:?}", opt);
     }
 
     if opt.functions.is_empty() {
-- 
2.43.0


From 517f87a7dea5bedcc2f9378ce9542c5eda1b9e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:31 +0000
Subject: [PATCH 3/7] fix: report errors when writing the last line of
 generated code to stdout

---
 libmgen/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index 4309b3f..592046e 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -435,6 +435,10 @@ fn main() {
     if let Some(path) = &config.output() {
         std::fs::write(path, text.as_bytes()).unwrap();
     } else {
-        std::io::stdout().write_all(text.as_bytes()).unwrap();
+        let mut stdout = std::io::stdout();
+        stdout.write_all(text.as_bytes()).unwrap();
+        // The text may not end in a newline: the buffered tail must not be left
+        // to the exit handler, which ignores errors.
+        stdout.flush().unwrap();
     }
 }
-- 
2.43.0


From 70e0a506602943c3f2d47c5350baf0e270ac000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:31 +0000
Subject: [PATCH 4/7] fix: exit with an error when the language is not
 supported

---
 libmgen/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index 592046e..f5ee06e 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -428,7 +428,7 @@ fn main() {
                 "invalid language {} use \"help\" to list valid options.",
                 config.language()
             );
-            return;
+            std::process::exit(1);
         }
     };
 
-- 
2.43.0


From 7f3ffd3f64829944a4da5f9cd0664c2657be04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:31 +0000
Subject: [PATCH 5/7] fix: ONE_BITS and ONE_MASK are integers, so that
 generated log functions compile

---
 libmgen/src/auxfuncs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 551f127..640d3a6 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -49,12 +49,12 @@ pub fn gen_INF(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_BITS: fty = 0x3f800000_u32;
+            const ONE_BITS: uty = 0x3f800000_u32;
         )
     
     } else {
         quote!(
-            const ONE_BITS: fty = 0x3ff0000000000000_u64;
+            const ONE_BITS: uty = 0x3ff0000000000000_u64;
         )
     }
 }
@@ -63,12 +63,12 @@ pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_MASK(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_MASK: fty = 0x007fffff_u32;
+            const ONE_MASK: uty = 0x007fffff_u32;
         )
     
     } else {
         quote!(
-            const ONE_MASK: fty = 0x000fffffffffffff_u64;
+            const ONE_MASK: uty = 0x000fffffffffffff_u64;
         )
     }
 }
-- 
2.43.0


From 93268834bf7bc5f919627a4add6222413b954685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:59 +0000
Subject: [PATCH 6/7] fix: runif computes its hash in 64 bits, so that the
 32-bit version compiles

---
 libmgen/src/stats_random.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/stats_random.rs b/libmgen/src/stats_random.rs
index 815c695..9b271aa 100644
--- a/libmgen/src/stats_random.rs
+++ b/libmgen/src/stats_random.rs
@@ -7,10 +7,10 @@ pub fn gen_runif(num_terms: usize, config: &Config) -> TokenStream {
         /// See https://xorshift.di.unimi.it/splitmix64.c
         /// Returns half-close range 0-1
         pub fn runif(index: usize, min: fty, max: fty) -> fty {
-            let z : uty = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
-            let z1 : uty = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
-            let z2 : uty = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
-            let z3 : uty = z2 ^ (z2 >> 31);
+            let z : u64 = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
+            let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
+            let z3 : u64 = z2 ^ (z2 >> 31);
             let x : fty = fty::from_bits((z3 as uty >> 2) | ONE_BITS) - 1.0;
             (x * (max - min)) + min
         }
-- 
2.43.0


From c8545775b1ea47455bf32ee78a865d61853f1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:55 +0000
Subject: [PATCH 7/7] fix: hexadecimal 64-bit constants are f64, so that
 generated code compiles

---
 doctor-syn/src/transformation/use_number_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index ee59430..31ea71f 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -23,7 +23,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
@@ -38,7 +38,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
-- 
2.43.0

