From 25882cd8307a3cec2967eb789b9e7f38f90e51fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 01/35] fix: tokenize documents of any length without
 exhausting the stack

The tokenizer recursed once per grapheme, so a document of a few thousand
characters aborted the process with a stack overflow. Each handler now
returns the next state and dispatch drives them in a loop; separate no longer
walks the whole remaining document for every grapheme.
---
 .../src/angle_bracket_close.rs                |  5 +-
 .../brack-tokenizer/src/angle_bracket_open.rs |  5 +-
 crates/brack-tokenizer/src/backslash.rs       |  5 +-
 crates/brack-tokenizer/src/comma.rs           |  5 +-
 .../src/curly_bracket_close.rs                |  5 +-
 .../brack-tokenizer/src/curly_bracket_open.rs |  5 +-
 crates/brack-tokenizer/src/dispatch.rs        | 66 ++++++++++++-------
 crates/brack-tokenizer/src/dot.rs             |  5 +-
 crates/brack-tokenizer/src/identifier.rs      |  5 +-
 crates/brack-tokenizer/src/module.rs          |  5 +-
 crates/brack-tokenizer/src/newline.rs         |  5 +-
 .../src/square_bracket_close.rs               |  5 +-
 .../src/square_bracket_open.rs                |  5 +-
 crates/brack-tokenizer/src/text.rs            |  5 +-
 crates/brack-tokenizer/src/utils.rs           | 14 ++--
 crates/brack-tokenizer/src/whitespace.rs      |  5 +-
 16 files changed, 73 insertions(+), 77 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 5e32432..afe8bf0 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         angle_nest_count: Some(angle_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/angle_bracket_open.rs b/crates/brack-tokenizer/src/angle_bracket_open.rs
index da23241..76e95e1 100644
--- a/crates/brack-tokenizer/src/angle_bracket_open.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,7 +47,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
 
 #[cfg(test)]
diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index 2935e62..f4e499a 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -41,5 +40,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/comma.rs b/crates/brack-tokenizer/src/comma.rs
index 62af075..26a673c 100644
--- a/crates/brack-tokenizer/src/comma.rs
+++ b/crates/brack-tokenizer/src/comma.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 6044da8..327ec54 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         curly_nest_count: Some(curly_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_open.rs b/crates/brack-tokenizer/src/curly_bracket_open.rs
index 5444695..33ec7cc 100644
--- a/crates/brack-tokenizer/src/curly_bracket_open.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index def265a..14d63bb 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -10,6 +10,46 @@ use crate::{
 use anyhow::Result;
 
 pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
+    // One step per grapheme. This must stay a loop: recursing once per grapheme overflows the
+    // stack on documents of a few thousand characters.
+    let mut t = t.clone();
+    while !is_end_of_input(&t)? {
+        t = step(&t)?;
+    }
+
+    let mut tokens = t
+        .tokens
+        .clone()
+        .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
+    let line = t
+        .line
+        .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
+    let column = t
+        .column
+        .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
+    tokens.push(Token::EOF(Location {
+        start: LocationData {
+            line,
+            character: column,
+        },
+        end: LocationData {
+            line,
+            character: column,
+        },
+    }));
+    Ok(tokens)
+}
+
+fn is_end_of_input(t: &Tokenizer) -> Result<bool> {
+    let s = t
+        .untreated
+        .as_ref()
+        .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
+    let (head, _) = separate(s);
+    Ok(head == "\0")
+}
+
+fn step(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -24,30 +64,6 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
 
     let (head, tail) = separate(&s);
 
-    if head == "\0" {
-        let mut tokens = t
-            .tokens
-            .clone()
-            .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
-        let line = t
-            .line
-            .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
-        let column = t
-            .column
-            .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
-        tokens.push(Token::EOF(Location {
-            start: LocationData {
-                line,
-                character: column,
-            },
-            end: LocationData {
-                line,
-                character: column,
-            },
-        }));
-        return Ok(tokens);
-    }
-
     let (head2, _) = separate(&tail);
 
     let angle_c = t
@@ -92,7 +108,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 pool: Some(format!("{}{}", pool, head)),
                 ..Default::default()
             };
-            dispatch(&t.merge(&t2))
+            Ok(t.merge(&t2))
         }
     }
 }
diff --git a/crates/brack-tokenizer/src/dot.rs b/crates/brack-tokenizer/src/dot.rs
index 8e7e62e..6e02f88 100644
--- a/crates/brack-tokenizer/src/dot.rs
+++ b/crates/brack-tokenizer/src/dot.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/identifier.rs b/crates/brack-tokenizer/src/identifier.rs
index 31f93bf..7b3f000 100644
--- a/crates/brack-tokenizer/src/identifier.rs
+++ b/crates/brack-tokenizer/src/identifier.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -58,5 +57,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(false),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/module.rs b/crates/brack-tokenizer/src/module.rs
index 5810d6d..e5a7de4 100644
--- a/crates/brack-tokenizer/src/module.rs
+++ b/crates/brack-tokenizer/src/module.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/newline.rs b/crates/brack-tokenizer/src/newline.rs
index feb9e18..a093d5d 100644
--- a/crates/brack-tokenizer/src/newline.rs
+++ b/crates/brack-tokenizer/src/newline.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -44,5 +43,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 7a33d18..f302ac3 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         square_nest_count: Some(square_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_open.rs b/crates/brack-tokenizer/src/square_bracket_open.rs
index 5be2c55..0e6d71f 100644
--- a/crates/brack-tokenizer/src/square_bracket_open.rs
+++ b/crates/brack-tokenizer/src/square_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/text.rs b/crates/brack-tokenizer/src/text.rs
index 2400693..3797fef 100644
--- a/crates/brack-tokenizer/src/text.rs
+++ b/crates/brack-tokenizer/src/text.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/utils.rs b/crates/brack-tokenizer/src/utils.rs
index ecfe141..3da5e13 100644
--- a/crates/brack-tokenizer/src/utils.rs
+++ b/crates/brack-tokenizer/src/utils.rs
@@ -1,15 +1,9 @@
 use unicode_segmentation::UnicodeSegmentation;
 
 pub fn separate(s: &str) -> (String, String) {
-    let graphemes = s.graphemes(true);
-    match graphemes.count() {
-        0 => ('\0'.to_string(), String::new()),
-        1 => (s.graphemes(true).next().unwrap().to_string(), String::new()),
-        _ => {
-            let mut graphemes = s.graphemes(true);
-            let head = graphemes.next().unwrap().to_string();
-            let tail = graphemes.collect::<String>();
-            (head, tail)
-        }
+    let mut graphemes = s.graphemes(true);
+    match graphemes.next() {
+        None => ('\0'.to_string(), String::new()),
+        Some(head) => (head.to_string(), graphemes.as_str().to_string()),
     }
 }
diff --git a/crates/brack-tokenizer/src/whitespace.rs b/crates/brack-tokenizer/src/whitespace.rs
index 08a7a78..2228787 100644
--- a/crates/brack-tokenizer/src/whitespace.rs
+++ b/crates/brack-tokenizer/src/whitespace.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
-- 
2.43.0


From 5cc9d9cf6b908b85ad91d3830f5344a4beaa2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 02/35] fix: keep the text after a NUL character

A NUL in the document was taken for the end of input, so the rest of the
document was dropped silently.
---
 crates/brack-tokenizer/src/dispatch.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 14d63bb..c622d9c 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -45,8 +45,7 @@ fn is_end_of_input(t: &Tokenizer) -> Result<bool> {
         .untreated
         .as_ref()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
-    let (head, _) = separate(s);
-    Ok(head == "\0")
+    Ok(s.is_empty())
 }
 
 fn step(t: &Tokenizer) -> Result<Tokenizer> {
@@ -96,7 +95,8 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         ("\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\0") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
+        _ if tail.is_empty() => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
         (_, ".") if nested => text::tokenize(t),
-- 
2.43.0


From 70b36caee90287c9ad0fc7ca16b73831fbcd55d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 03/35] fix: treat CRLF as a newline

The tokenizer looks at one grapheme at a time and "\r\n" is a single
grapheme, so in documents with Windows line endings no newline was ever
recognised: paragraphs ran together and every location was on line 0.
---
 crates/brack-tokenizer/src/dispatch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index c622d9c..cdc4bba 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -92,10 +92,10 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         (".", _) if nested => dot::tokenize(t),
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
-        ("\n", _) => newline::tokenize(t),
+        ("\n", _) | ("\r\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") => text::tokenize(t),
         _ if tail.is_empty() => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
-- 
2.43.0


From 50502c55bd4253858630b0117a9505744f31a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 04/35] fix: do not take brackets, dots or newlines for
 identifiers

While an identifier was expected, any character directly before a closing
bracket became an identifier, also when it was itself a bracket, dot, space,
comma or newline: "[]]" lost a bracket and "[\n]" lost a line.
---
 crates/brack-tokenizer/src/dispatch.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index cdc4bba..88670e9 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -80,9 +80,6 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
     let nested = (angle_c + curly_c + square_c) > 0;
     match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
-        (_, ">") if look_for_ident => identifier::tokenize(t),
-        (_, "}") if look_for_ident => identifier::tokenize(t),
-        (_, "]") if look_for_ident => identifier::tokenize(t),
         ("<", _) => angle_bracket_open::tokenize(t),
         (">", _) => angle_bracket_close::tokenize(t),
         ("{", _) => curly_bracket_open::tokenize(t),
@@ -93,6 +90,9 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
         ("\n", _) | ("\r\n", _) => newline::tokenize(t),
+        (_, ">") if look_for_ident => identifier::tokenize(t),
+        (_, "}") if look_for_ident => identifier::tokenize(t),
+        (_, "]") if look_for_ident => identifier::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
         (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") => text::tokenize(t),
-- 
2.43.0


From f418571c0d2602bfa41ecb35a56ac5fdfb0ae9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 05/35] fix: do not let a stray closing bracket break the
 commands after it

A closing bracket that closes nothing made the nesting count negative, so the
next well-formed command was tokenized as if it were outside of any bracket.
---
 crates/brack-tokenizer/src/angle_bracket_close.rs  |  2 +-
 crates/brack-tokenizer/src/curly_bracket_close.rs  |  2 +-
 crates/brack-tokenizer/src/square_bracket_close.rs |  2 +-
 crates/brack-tokenizer/src/tokenizer.rs            | 10 ++++++++++
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index afe8bf0..7d91c2e 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        angle_nest_count: Some(angle_nest_count - 1),
+        angle_nest_count: Some(angle_nest_count - i32::from(t.is_nested())),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 327ec54..4ee6f98 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        curly_nest_count: Some(curly_nest_count - 1),
+        curly_nest_count: Some(curly_nest_count - i32::from(t.is_nested())),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index f302ac3..68ff423 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        square_nest_count: Some(square_nest_count - 1),
+        square_nest_count: Some(square_nest_count - i32::from(t.is_nested())),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/tokenizer.rs b/crates/brack-tokenizer/src/tokenizer.rs
index 53a9912..04fa7d3 100644
--- a/crates/brack-tokenizer/src/tokenizer.rs
+++ b/crates/brack-tokenizer/src/tokenizer.rs
@@ -17,6 +17,16 @@ pub struct Tokenizer {
 }
 
 impl Tokenizer {
+    /// Whether the current position is inside at least one bracket.
+    pub fn is_nested(&self) -> bool {
+        let counts = [
+            self.angle_nest_count,
+            self.square_nest_count,
+            self.curly_nest_count,
+        ];
+        counts.iter().flatten().sum::<i32>() > 0
+    }
+
     pub fn merge(&self, other: &Tokenizer) -> Tokenizer {
         Tokenizer {
             uri: other.uri.clone(),
-- 
2.43.0


From 03bec9cc6d67091a082d240cfb27371364ace7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 06/35] fix: tokenize an escaped character as text

"\." and "\," were reported as invalid escapes outside of brackets, and an
escaped bracket still changed the nesting and started a command, so the text
after it was tokenized as a module, an identifier and arguments.
---
 crates/brack-tokenizer/src/backslash.rs | 37 +++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index f4e499a..d9227a6 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -33,9 +33,42 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    // An escaped character is only text: it neither opens nor closes a bracket, and it is escaped
+    // inside and outside of brackets alike.
+    let location = Location {
+        start: LocationData {
+            line,
+            character: column + 1,
+        },
+        end: LocationData {
+            line,
+            character: column + 2,
+        },
+    };
+    let (head, rest) = separate(&tail);
+    let escaped = match &head[..] {
+        "\\" => Some(Token::BackSlash(location)),
+        "<" => Some(Token::AngleBracketOpen(location)),
+        ">" => Some(Token::AngleBracketClose(location)),
+        "{" => Some(Token::CurlyBracketOpen(location)),
+        "}" => Some(Token::CurlyBracketClose(location)),
+        "[" => Some(Token::SquareBracketOpen(location)),
+        "]" => Some(Token::SquareBracketClose(location)),
+        "." => Some(Token::Dot(location)),
+        "," => Some(Token::Comma(location)),
+        _ => None,
+    };
+    let (column, tail) = match escaped {
+        Some(token) => {
+            tokens.push(token);
+            (column + 2, rest)
+        }
+        None => (column + 1, tail),
+    };
+
     let t2 = Tokenizer {
-        column: Some(column + 1),
-        token_start_column: Some(column + 1),
+        column: Some(column),
+        token_start_column: Some(column),
         untreated: Some(tail),
         tokens: Some(tokens),
         ..Default::default()
-- 
2.43.0


From bc56a7981f063ff6f2fff6d9453cabc4363bc989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 07/35] fix: let an escape span the character it escapes

The location of an escape was that of its backslash alone, so an expression
ending in an escape was reported one character short.
---
 crates/brack-parser/src/escaped.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/brack-parser/src/escaped.rs b/crates/brack-parser/src/escaped.rs
index 04a9754..787f89a 100644
--- a/crates/brack-parser/src/escaped.rs
+++ b/crates/brack-parser/src/escaped.rs
@@ -1,6 +1,6 @@
 use anyhow::bail;
 use anyhow::Result;
-use brack_tokenizer::tokens::Token;
+use brack_tokenizer::tokens::{merge_location, Token};
 use uuid::Uuid;
 
 use crate::cst::new_backslash;
@@ -55,6 +55,10 @@ pub fn parse(tokens: &[Token]) -> Result<Parser> {
                         }
                         _ => Err(()),
                     };
+                    let location = match &escaped_node {
+                        Ok(node) => merge_location(location, &node.location()),
+                        Err(_) => location.clone(),
+                    };
                     let children = match escaped_node {
                         Ok(node) => vec![node],
                         Err(_) => vec![],
@@ -62,7 +66,7 @@ pub fn parse(tokens: &[Token]) -> Result<Parser> {
                     return Ok((
                         CST::BackSlash(InnerNode {
                             id: Uuid::new_v4().to_string(),
-                            location: location.clone(),
+                            location,
                             children: children.clone(),
                         }),
                         tokens,
-- 
2.43.0


From 15d9c8336156e9914bf6e447e9e258b6e0eb962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 08/35] fix: compute the locations of statements and arguments
 correctly

Every statement and argument was reported to start at line 0, column 0,
because a new node's placeholder location was merged in, and merge_location
compared a line with a column, so two ends on one line were ordered by chance.
---
 crates/brack-parser/src/cst.rs       | 6 +++++-
 crates/brack-tokenizer/src/tokens.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/brack-parser/src/cst.rs b/crates/brack-parser/src/cst.rs
index a1fef29..47ecd76 100644
--- a/crates/brack-parser/src/cst.rs
+++ b/crates/brack-parser/src/cst.rs
@@ -174,7 +174,11 @@ impl CST {
                     | CST::Invalid(leaf)
                     | CST::EOF(leaf) => leaf.location,
                 };
-                node.location = merge_location(&node.location, &location_children);
+                // The location of a node without children is only a placeholder.
+                node.location = match node.children.len() {
+                    1 => location_children,
+                    _ => merge_location(&node.location, &location_children),
+                };
             }
             _ => panic!("This node does not have children"),
         }
diff --git a/crates/brack-tokenizer/src/tokens.rs b/crates/brack-tokenizer/src/tokens.rs
index bb6b745..28e6c11 100644
--- a/crates/brack-tokenizer/src/tokens.rs
+++ b/crates/brack-tokenizer/src/tokens.rs
@@ -58,7 +58,7 @@ pub fn merge_location(location1: &Location, location2: &Location) -> Location {
 
     let end = match location1.end.line.cmp(&location2.end.line) {
         Ordering::Less => location2.end.clone(),
-        Ordering::Equal => match location1.end.line.cmp(&location2.end.character) {
+        Ordering::Equal => match location1.end.character.cmp(&location2.end.character) {
             Ordering::Greater => location1.end.clone(),
             _ => location2.end.clone(),
         },
-- 
2.43.0


From 078f215e784e04cac72245ae1145d0273dd3d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 09/35] fix: report a closing bracket that was never opened

The errors for it existed but were never raised: such a bracket was dropped
from the document without a diagnostic.
---
 crates/brack-transformer/src/stmt.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/brack-transformer/src/stmt.rs b/crates/brack-transformer/src/stmt.rs
index 59b3cfd..557dfdc 100644
--- a/crates/brack-transformer/src/stmt.rs
+++ b/crates/brack-transformer/src/stmt.rs
@@ -13,6 +13,19 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
 
     for child in node.children.clone() {
         let (cst, mut node_errors) = simplify::simplify(&child);
+        // The parser leaves a closing bracket outside of its bracket only if it closes none.
+        match &cst {
+            CST::AngleBracketClose(leaf) => {
+                errors.push(TransformError::AngleNotOpened(leaf.location.clone()))
+            }
+            CST::CurlyBracketClose(leaf) => {
+                errors.push(TransformError::CurlyNotOpened(leaf.location.clone()))
+            }
+            CST::SquareBracketClose(leaf) => {
+                errors.push(TransformError::SquareNotOpened(leaf.location.clone()))
+            }
+            _ => (),
+        }
         csts.push(cst);
         errors.append(&mut node_errors);
     }
-- 
2.43.0


From b3119a6cddc4e590a706d1a3ac90d63c7ba81c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 10/35] fix: do not panic on text after a bracket that is never
 closed

In "{[a.b c} d" the blank after the curly bracket is tokenized as an argument
separator of the unclosed square bracket, and transform panicked on it.
---
 crates/brack-transformer/src/transform.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/brack-transformer/src/transform.rs b/crates/brack-transformer/src/transform.rs
index ca1dabc..1299cee 100644
--- a/crates/brack-transformer/src/transform.rs
+++ b/crates/brack-transformer/src/transform.rs
@@ -60,6 +60,11 @@ pub fn transform(cst: &CST) -> (AST, Vec<TransformError>) {
             CST::Module(node) => new_module(node.value.clone(), node.location.clone()),
             CST::Invalid(node) => new_invalid(node.location.clone()),
             CST::Text(node) => new_text(node.value.clone(), node.location.clone()),
+            // The tokenizer takes text after a bracket that is never closed for the inside of that
+            // bracket. Where the parser ends the bracket earlier, these are ordinary text.
+            CST::Dot(node) => new_text(Some(".".to_string()), node.location.clone()),
+            CST::Comma(node) => new_text(Some(",".to_string()), node.location.clone()),
+            CST::Whitespace(node) => new_text(Some(" ".to_string()), node.location.clone()),
             node => panic!("Cannot pass non-ast node to transform::aux: {:?}", node),
         }
     }
-- 
2.43.0


From fb9b81a5a959da21f0caba797d1fee64be625cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 11/35] fix: put the result of a macro in place of the macro

The expanded children were collected and then dropped, so every document that
used a macro failed with "Angle must be expanded by the macro expander." An
invalid escape in the document no longer panics here either.
---
 crates/brack-expander/src/expand.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index 43fb9a3..e034172 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -30,26 +30,27 @@ fn expand_angle(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
 }
 
 fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-    let mut children = vec![];
-    match ast {
-        AST::Text(_) => {
-            return Ok(ast.clone());
-        }
-        AST::Module(_) => {
-            return Ok(ast.clone());
-        }
-        AST::Ident(_) => {
-            return Ok(ast.clone());
+    let mut ast = ast.clone();
+    let node = match &mut ast {
+        AST::Document(node)
+        | AST::Stmt(node)
+        | AST::Expr(node)
+        | AST::Angle(node)
+        | AST::Square(node)
+        | AST::Curly(node) => node,
+        AST::Module(_) | AST::Ident(_) | AST::Text(_) | AST::Invalid(_) | AST::Ignored(_) => {
+            return Ok(ast)
         }
-        _ => {}
-    }
-    for child in ast.children() {
+    };
+    let mut children = vec![];
+    for child in &node.children {
         match child {
             AST::Angle(_) => children.push(expand_angle(overall_ast, child, plugins)?),
             _ => children.push(expand_other(overall_ast, child, plugins)?),
         }
     }
-    Ok(ast.clone())
+    node.children = children;
+    Ok(ast)
 }
 
 pub fn expander(ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-- 
2.43.0


From ef10d950fa21a3a1556c4972e1d4d2ba2c9b4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 12/35] fix: do not panic on commands with an optional or array
 argument before others

A signature like (option, inline) or (option, array) accepts fewer arguments
than it has positions, and codegen indexed past the end of the arguments; an
array before another argument overflowed the maximum number of arguments.
---
 crates/brack-codegen/src/curly.rs  | 7 +++++--
 crates/brack-codegen/src/square.rs | 7 +++++--
 crates/brack-plugin/src/types.rs   | 6 +++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/brack-codegen/src/curly.rs b/crates/brack-codegen/src/curly.rs
index 4d9b7cb..5fc8d06 100644
--- a/crates/brack-codegen/src/curly.rs
+++ b/crates/brack-codegen/src/curly.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.iter().skip(i).cloned().collect()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires at least {} arguments", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-codegen/src/square.rs b/crates/brack-codegen/src/square.rs
index 70e14eb..8093c07 100644
--- a/crates/brack-codegen/src/square.rs
+++ b/crates/brack-codegen/src/square.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.iter().skip(i).cloned().collect()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires at least {} arguments", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-plugin/src/types.rs b/crates/brack-plugin/src/types.rs
index e6b4a75..84af20f 100644
--- a/crates/brack-plugin/src/types.rs
+++ b/crates/brack-plugin/src/types.rs
@@ -13,12 +13,12 @@ pub enum Type {
 
 pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
     let mut min = 0;
-    let mut max = 0;
+    let mut max: usize = 0;
     for arg_type in arg_types {
         match arg_type {
             Type::TOption(_) => {
                 min += 0;
-                max += 1;
+                max = max.saturating_add(1);
             }
             Type::TArray(_) => {
                 min += 0;
@@ -26,7 +26,7 @@ pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
             }
             _ => {
                 min += 1;
-                max += 1;
+                max = max.saturating_add(1);
             }
         }
     }
-- 
2.43.0


From 0918563279ab7090cec53d3d3547516bf5a07301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 13/35] fix: report an unexpected dot once

Both checks of a command's arguments reported the same dot.
---
 crates/brack-transformer/src/utils.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 502220d..1b38525 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -87,10 +87,7 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
                 new_csts.push(csts[i].clone());
                 break;
             }
-            CST::Dot(_) => {
-                errors.push(TransformError::UnexpectedDot(csts[i].location()));
-                continue;
-            }
+            CST::Dot(_) => continue, // reported by check_unexpected_dot
             _ => {
                 expr.add(csts[i].clone());
                 previous_comma = false;
-- 
2.43.0


From d7a3d2428ab9e9c0cd2f9d2b19f75a50b347659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 14/35] fix: read every language server message, however the
 input is split

Only one message was handled per read, so a second message that arrived with
the first waited for more input; a multi-byte character split between two reads,
a malformed header or invalid JSON ended the server.
---
 crates/brack-language-server/src/server.rs | 63 +++++++++++-----------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 59daa7b..0781bd1 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -1,12 +1,34 @@
-use std::str::from_utf8;
-
 use anyhow::Result;
 use brack_project_manager::project::Project;
 use lsp_types::{ClientCapabilities, Diagnostic};
 use serde::Serialize;
-use serde_json::{from_str, json, Value};
+use serde_json::{from_slice, json, Value};
 use tokio::io::{stdin, stdout, AsyncReadExt, AsyncWriteExt};
 
+/// Removes the first complete message from the buffer and returns its content.
+fn take_message(buffer: &mut Vec<u8>) -> Option<Vec<u8>> {
+    loop {
+        let header_length = buffer.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
+        let content_length = String::from_utf8_lossy(&buffer[..header_length])
+            .lines()
+            .filter_map(|line| line.split_once(':'))
+            .filter(|(key, _)| key.trim().eq_ignore_ascii_case("Content-Length"))
+            .find_map(|(_, value)| value.trim().parse::<usize>().ok());
+        let Some(content_length) = content_length else {
+            // Without a length there is no telling what belongs to this message.
+            buffer.drain(..header_length);
+            continue;
+        };
+        let total_length = header_length.checked_add(content_length)?;
+        if buffer.len() < total_length {
+            return None;
+        }
+        let content = buffer[header_length..total_length].to_vec();
+        buffer.drain(..total_length);
+        return Some(content);
+    }
+}
+
 #[derive(Default)]
 pub struct Server {
     pub(crate) client_capabilities: ClientCapabilities,
@@ -74,7 +96,6 @@ impl Server {
             .await
     }
 
-    #[allow(dead_code)]
     pub(crate) async fn send_parse_error_response(&self) -> Result<()> {
         self.send_error_response(None, -32700, "received an invalid JSON")
             .await
@@ -134,37 +155,13 @@ impl Server {
             }
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
-            let buffer_string = from_utf8(&buffer)?;
-            if !buffer_string.contains("\r\n\r\n") {
-                continue;
-            }
-
-            let splitted_buffer = buffer_string.split("\r\n\r\n").collect::<Vec<&str>>();
-            let header_string = splitted_buffer[0];
-
-            let mut content_length = -1;
-            let header_length = header_string.len() + 4;
-            for line in header_string.split("\r\n") {
-                let splitted_line = line.split(": ").collect::<Vec<&str>>();
-                let key = splitted_line[0];
-                let value = splitted_line[1];
-                if key == "Content-Length" {
-                    content_length = value.parse::<i32>()?;
+            // One read may complete several messages, or none.
+            while let Some(content) = take_message(&mut buffer) {
+                match from_slice::<Value>(&content) {
+                    Ok(msg) => self.dispatch(msg).await?,
+                    Err(_) => self.send_parse_error_response().await?,
                 }
             }
-
-            if content_length == -1 {
-                continue;
-            }
-            let total_length = header_length + content_length as usize;
-
-            if buffer.len() < total_length {
-                continue;
-            }
-
-            let msg: Value = from_str(&buffer_string[header_length..total_length])?;
-            self.dispatch(msg).await?;
-            buffer.drain(0..total_length);
         }
 
         Ok(())
-- 
2.43.0


From f57390e774b124b4f2733f881717b8e3a50161e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 15/35] fix: keep the language server running when a message
 cannot be handled

A request or notification with unexpected parameters, a document that cannot be
parsed or a plugin that cannot be downloaded ended the server.
---
 crates/brack-language-server/src/server.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 0781bd1..c54aed3 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -134,9 +134,18 @@ impl Server {
             msg.get("id").and_then(|i| i.as_i64()),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
-            (Some(id), Some(method)) => self.handle_request(&msg, id, method).await,
+            (Some(id), Some(method)) => match self.handle_request(&msg, id, method).await {
+                Ok(()) => Ok(()),
+                Err(e) => {
+                    self.send_error_response(Some(id), -32603, &e.to_string())
+                        .await
+                }
+            },
             (Some(id), None) => self.handle_response(&msg, id).await,
-            (None, Some(method)) => self.handle_notification(&msg, method).await,
+            (None, Some(method)) => match self.handle_notification(&msg, method).await {
+                Ok(()) => Ok(()),
+                Err(e) => self.log_message(&format!("{} failed: {}", method, e)).await,
+            },
             _ => self.send_invalid_request_response().await,
         }
     }
-- 
2.43.0


From 7291ce3c58bc449c9d646afafa95093e8bd19424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 16/35] fix: answer requests that have nothing to report

Completion without a project or trigger character and semantic tokens of an
unreadable file were never answered; the result is null now.
---
 crates/brack-language-server/src/request.rs | 24 +++++++--------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index ed1db70..af86393 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -106,14 +106,10 @@ impl Server {
             "textDocument/semanticTokens/full" => {
                 let params = SemanticTokensParams::deserialize(msg["params"].clone())?;
                 match self.handle_semantic_tokens_full(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id, response);
+                        self.send_stdout(&result).await
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "semantic tokens failed")
                             .await
@@ -123,14 +119,10 @@ impl Server {
             "textDocument/completion" => {
                 let params = CompletionParams::deserialize(msg["params"].clone())?;
                 match self.handle_completion(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id, response);
+                        self.send_stdout(&result).await
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "completion failed")
                             .await
-- 
2.43.0


From 4d11c28f65683b07e3b85bc340cb102d13222213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 17/35] fix: answer requests whose id is a string

The protocol allows numbers and strings. A request with a string id was taken
for a notification and never answered.
---
 crates/brack-language-server/src/request.rs  |  2 +-
 crates/brack-language-server/src/response.rs |  2 +-
 crates/brack-language-server/src/result.rs   |  5 +++--
 crates/brack-language-server/src/server.rs   | 14 ++++++++++----
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index af86393..1eb0941 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -17,7 +17,7 @@ impl Server {
     pub(crate) async fn handle_request(
         &mut self,
         msg: &Value,
-        id: i64,
+        id: Value,
         method: &str,
     ) -> Result<()> {
         match method {
diff --git a/crates/brack-language-server/src/response.rs b/crates/brack-language-server/src/response.rs
index 7167f18..33a89bc 100644
--- a/crates/brack-language-server/src/response.rs
+++ b/crates/brack-language-server/src/response.rs
@@ -3,7 +3,7 @@ use anyhow::Result;
 use serde_json::Value;
 
 impl Server {
-    pub(crate) async fn handle_response(&self, _: &Value, _: i64) -> Result<()> {
+    pub(crate) async fn handle_response(&self, _: &Value, _: Value) -> Result<()> {
         Ok(())
     }
 }
diff --git a/crates/brack-language-server/src/result.rs b/crates/brack-language-server/src/result.rs
index 24bee6d..587549c 100644
--- a/crates/brack-language-server/src/result.rs
+++ b/crates/brack-language-server/src/result.rs
@@ -1,14 +1,15 @@
 use serde::Serialize;
+use serde_json::Value;
 
 #[derive(Serialize)]
 pub(crate) struct BLSResult<R: Serialize> {
     jsonrpc: String,
-    id: i64,
+    id: Value,
     result: R,
 }
 
 impl<R: Serialize> BLSResult<R> {
-    pub fn new(id: i64, result: R) -> Self {
+    pub fn new(id: Value, result: R) -> Self {
         Self {
             jsonrpc: "2.0".to_string(),
             id,
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index c54aed3..bee1692 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -70,7 +70,7 @@ impl Server {
 
     pub(crate) async fn send_error_response(
         &self,
-        id: Option<i64>,
+        id: Option<Value>,
         code: i32,
         message: &str,
     ) -> Result<()> {
@@ -91,7 +91,11 @@ impl Server {
             .await
     }
 
-    pub(crate) async fn send_method_not_found_response(&self, id: i64, method: &str) -> Result<()> {
+    pub(crate) async fn send_method_not_found_response(
+        &self,
+        id: Value,
+        method: &str,
+    ) -> Result<()> {
         self.send_error_response(Some(id), -32601, &format!("{} is not supported", method))
             .await
     }
@@ -131,10 +135,12 @@ impl Server {
 
     pub(crate) async fn dispatch(&mut self, msg: Value) -> Result<()> {
         match (
-            msg.get("id").and_then(|i| i.as_i64()),
+            msg.get("id")
+                .filter(|id| id.is_number() || id.is_string())
+                .cloned(),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
-            (Some(id), Some(method)) => match self.handle_request(&msg, id, method).await {
+            (Some(id), Some(method)) => match self.handle_request(&msg, id.clone(), method).await {
                 Ok(()) => Ok(()),
                 Err(e) => {
                     self.send_error_response(Some(id), -32603, &e.to_string())
-- 
2.43.0


From fc40d7428cb6627d3b266c246d8ad97316a79e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 18/35] fix: publish diagnostics under the document's URI

They were published under the file path, which is not a URI, so a client cannot
match them with the document.
---
 crates/brack-language-server/src/notification/did_save.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index dc94db8..bbad973 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -16,11 +16,9 @@ impl Server {
             .uri
             .to_file_path()
             .map_err(|_| anyhow::anyhow!("Invalid file path"))?;
-        let uri = file_path
-            .to_str()
-            .ok_or_else(|| anyhow::anyhow!("Invalid file path"))?;
+        let uri = param.text_document.uri.as_str();
 
-        let tokens = match tokenize(uri) {
+        let tokens = match tokenize(&file_path) {
             Ok(tokens) => tokens,
             Err(e) => return self.log_message(&format!("Tokenize failed: {}", e)).await,
         };
-- 
2.43.0


From 9fdcc62069b3770061c1def14932aa6064e52d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 19/35] fix: complete macros after an angle bracket

"<" is announced as a trigger character and macro completions can be built, but
"<" always gave an empty list.
---
 crates/brack-language-server/src/request/completion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 45967ee..5888ccf 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -57,6 +57,7 @@ impl Server {
             for ((name, typ), command_metadata) in plugin.signature_to_metadata.iter() {
                 if (start == *"[" && matches!(typ, Type::TInline))
                     || (start == *"{" && matches!(typ, Type::TBlock))
+                    || (start == *"<" && matches!(typ, Type::TAST))
                 {
                     completion_items.push(build_completion_item(
                         &plugin.name,
-- 
2.43.0


From 9b5bcdc23c8fa2fe00f262afea20594edd1b0cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 20/35] fix: send only semantic tokens whose type is in the
 legend

Tokens without decoration were sent with type 100, which the legend, having 23
types, does not define.
---
 .../src/request/semantic_tokens.rs                    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index 40b360e..c756941 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -4,16 +4,16 @@ use lsp_types::{SemanticToken, SemanticTokenType, SemanticTokens, SemanticTokens
 
 use crate::server::Server;
 
-fn token_kind_to_type(token: &Token) -> u32 {
+fn token_kind_to_type(token: &Token) -> Option<u32> {
     let typ = match token {
         Token::Module(_, _) => SemanticTokenType::NAMESPACE,
         Token::Ident(_, _) => SemanticTokenType::VARIABLE,
         Token::AngleBracketOpen(_) | Token::AngleBracketClose(_) => SemanticTokenType::MACRO,
         Token::CurlyBracketOpen(_) | Token::CurlyBracketClose(_) => SemanticTokenType::METHOD,
         Token::SquareBracketOpen(_) | Token::SquareBracketClose(_) => SemanticTokenType::FUNCTION,
-        _ => return 100, // no decoration
+        _ => return None, // no decoration
     };
-    token_type_as_u32(typ)
+    Some(token_type_as_u32(typ))
 }
 
 fn token_type_as_u32(token_type: SemanticTokenType) -> u32 {
@@ -50,6 +50,9 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
     let mut prev_char = 0;
 
     for token in tokens {
+        let Some(token_type) = token_kind_to_type(token) else {
+            continue;
+        };
         let location = token.get_location();
         let delta_line = location.start.line as u32 - prev_line;
         let delta_start = if delta_line == 0 {
@@ -62,7 +65,7 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
             delta_line,
             delta_start,
             length: (location.end.character - location.start.character) as u32,
-            token_type: token_kind_to_type(token),
+            token_type,
             token_modifiers_bitset: 0,
         });
 
-- 
2.43.0


From 88a228eed9542d20353b81bf47ed7bcbfa94ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 21/35] fix: count columns in UTF-16 code units for language
 server clients

The tokenizer's columns count graphemes. The protocol's count UTF-16 code units,
so diagnostics and semantic tokens after an emoji or a combining character were
off.
---
 .../src/notification/did_save.rs              | 20 ++++++++----
 .../src/request/semantic_tokens.rs            | 31 ++++++++++---------
 crates/brack-tokenizer/src/lib.rs             |  1 +
 crates/brack-tokenizer/src/utf16.rs           | 16 ++++++++++
 4 files changed, 47 insertions(+), 21 deletions(-)
 create mode 100644 crates/brack-tokenizer/src/utf16.rs

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index bbad973..99a1aa2 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -1,6 +1,8 @@
+use std::fs::read_to_string;
+
 use anyhow::Result;
 use brack_parser::parse::parse;
-use brack_tokenizer::tokenize::tokenize;
+use brack_tokenizer::{tokenize::tokenize_str, utf16::to_utf16};
 use brack_transformer::transform::transform;
 use lsp_types::{Diagnostic, DidSaveTextDocumentParams};
 
@@ -18,7 +20,11 @@ impl Server {
             .map_err(|_| anyhow::anyhow!("Invalid file path"))?;
         let uri = param.text_document.uri.as_str();
 
-        let tokens = match tokenize(&file_path) {
+        let text = match read_to_string(&file_path) {
+            Ok(text) => text,
+            Err(e) => return self.log_message(&format!("Tokenize failed: {}", e)).await,
+        };
+        let tokens = match tokenize_str(&text) {
             Ok(tokens) => tokens,
             Err(e) => return self.log_message(&format!("Tokenize failed: {}", e)).await,
         };
@@ -33,16 +39,18 @@ impl Server {
         let mut diagnostics = vec![];
         for error in errors {
             let location = error.get_location();
+            let start = to_utf16(&text, &location.start);
+            let end = to_utf16(&text, &location.end);
             let message = error.get_message();
             let diagnostic = Diagnostic {
                 range: lsp_types::Range {
                     start: lsp_types::Position {
-                        line: location.start.line as u32,
-                        character: location.start.character as u32,
+                        line: start.line as u32,
+                        character: start.character as u32,
                     },
                     end: lsp_types::Position {
-                        line: location.end.line as u32,
-                        character: location.end.character as u32,
+                        line: end.line as u32,
+                        character: end.character as u32,
                     },
                 },
                 message,
diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index c756941..5fe1aa6 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -1,5 +1,7 @@
+use std::fs::read_to_string;
+
 use anyhow::Result;
-use brack_tokenizer::{tokenize::tokenize, tokens::Token};
+use brack_tokenizer::{tokenize::tokenize_str, tokens::Token, utf16::to_utf16};
 use lsp_types::{SemanticToken, SemanticTokenType, SemanticTokens, SemanticTokensParams};
 
 use crate::server::Server;
@@ -44,7 +46,7 @@ fn token_type_as_u32(token_type: SemanticTokenType) -> u32 {
     }
 }
 
-fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
+fn separate(text: &str, tokens: &Vec<Token>) -> Vec<SemanticToken> {
     let mut semantic_tokens = Vec::new();
     let mut prev_line = 0;
     let mut prev_char = 0;
@@ -54,23 +56,25 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
             continue;
         };
         let location = token.get_location();
-        let delta_line = location.start.line as u32 - prev_line;
+        let start = to_utf16(text, &location.start);
+        let end = to_utf16(text, &location.end);
+        let delta_line = start.line as u32 - prev_line;
         let delta_start = if delta_line == 0 {
-            location.start.character as u32 - prev_char
+            start.character as u32 - prev_char
         } else {
-            location.start.character as u32
+            start.character as u32
         };
 
         semantic_tokens.push(SemanticToken {
             delta_line,
             delta_start,
-            length: (location.end.character - location.start.character) as u32,
+            length: (end.character - start.character) as u32,
             token_type,
             token_modifiers_bitset: 0,
         });
 
-        prev_line = location.start.line as u32;
-        prev_char = location.start.character as u32;
+        prev_line = start.line as u32;
+        prev_char = start.character as u32;
     }
 
     semantic_tokens
@@ -87,20 +91,17 @@ impl Server {
                 params.text_document.uri
             )
         })?;
-        let uri = file_path.to_str().ok_or_else(|| {
-            anyhow::anyhow!("Failed to convert file path to string: {:?}", file_path)
-        })?;
-
-        let tokens = match tokenize(uri) {
-            Ok(tokens) => tokens,
+        let text = match read_to_string(&file_path) {
+            Ok(text) => text,
             Err(e) => {
                 self.log_message(&format!("Failed to tokenize file: {:?}", e))
                     .await?;
                 return Ok(None);
             }
         };
+        let tokens = tokenize_str(&text)?;
 
-        let separated = separate(&tokens);
+        let separated = separate(&text, &tokens);
         Ok(Some(SemanticTokens {
             result_id: None,
             data: separated,
diff --git a/crates/brack-tokenizer/src/lib.rs b/crates/brack-tokenizer/src/lib.rs
index c407cd1..0b016f8 100644
--- a/crates/brack-tokenizer/src/lib.rs
+++ b/crates/brack-tokenizer/src/lib.rs
@@ -15,5 +15,6 @@ mod text;
 pub mod tokenize;
 mod tokenizer;
 pub mod tokens;
+pub mod utf16;
 mod utils;
 mod whitespace;
diff --git a/crates/brack-tokenizer/src/utf16.rs b/crates/brack-tokenizer/src/utf16.rs
new file mode 100644
index 0000000..3641ff0
--- /dev/null
+++ b/crates/brack-tokenizer/src/utf16.rs
@@ -0,0 +1,16 @@
+use crate::tokens::LocationData;
+use unicode_segmentation::UnicodeSegmentation;
+
+/// Converts a location in the text, whose columns count graphemes, to one whose columns count
+/// UTF-16 code units, as the language server protocol does.
+pub fn to_utf16(text: &str, location: &LocationData) -> LocationData {
+    let line = text.split('\n').nth(location.line).unwrap_or_default();
+    LocationData {
+        line: location.line,
+        character: line
+            .graphemes(true)
+            .take(location.character)
+            .map(|grapheme| grapheme.encode_utf16().count())
+            .sum(),
+    }
+}
-- 
2.43.0


From 62802d749f4f6245e2bddcd14329ca00d5ca159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 22/35] fix: keep a project's plugins and output below the
 project, and create them

Building a project without a plugins directory, or without documents, failed
because plugins or out did not exist; the language server, which is seldom
started in the project, looked for plugins in its own working directory.
---
 crates/brack-project-manager/src/project.rs | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index b0ae3b5..285447e 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -34,9 +34,14 @@ impl Project {
         Ok(())
     }
 
+    fn plugins_dir(&self) -> PathBuf {
+        self.root.join("plugins")
+    }
+
     pub fn clear_plugins(&mut self) -> Result<()> {
-        std::fs::remove_dir_all("plugins")?;
-        std::fs::create_dir("plugins")?;
+        let plugins_dir = self.plugins_dir();
+        std::fs::remove_dir_all(&plugins_dir)?;
+        std::fs::create_dir(&plugins_dir)?;
         self.plugins_metadata = Default::default();
         Ok(())
     }
@@ -46,7 +51,8 @@ impl Project {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
                 let path =
-                    PathBuf::from(&format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                    self.plugins_dir()
+                        .join(format!("{}_{}.wasm", name, plugin.hash_sha256()));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
@@ -109,6 +115,7 @@ impl Project {
             let results = join_all(tasks).await;
             for result in results {
                 let (name, path, bytes, flag) = result??;
+                std::fs::create_dir_all(self.plugins_dir())?;
                 std::fs::write(&path, &bytes)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
@@ -124,7 +131,9 @@ impl Project {
         }
         let mut plugins = Plugins::new(plugin_vec)?;
 
-        let entries = std::fs::read_dir("docs")?;
+        let out = self.root.join("out");
+        std::fs::create_dir_all(&out)?;
+        let entries = std::fs::read_dir(self.root.join("docs"))?;
         for entry in entries {
             let entry = entry?;
             let path = entry.path();
@@ -139,18 +148,16 @@ impl Project {
                 let (ast, _errors) = brack_transformer::transform::transform(&parsed);
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all("out")?;
                 std::fs::write(
-                    format!("out/{}.{}", file_stem, self.config.document.backend),
+                    out.join(format!("{}.{}", file_stem, self.config.document.backend)),
                     gen,
                 )?;
             }
         }
 
         println!("Build succeeded.");
-        for out in std::fs::read_dir("out")? {
-            let out = out?;
-            let path = out.path();
+        for entry in std::fs::read_dir(&out)? {
+            let path = entry?.path();
             let file_stem = path
                 .file_name()
                 .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
-- 
2.43.0


From 15bd11670abafedfdd697630d22500a3ca4ee447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 23/35] fix: do not leave half-written plugins or Brack.toml
 behind

A build or add that was interrupted while writing left a truncated plugin, which
every later build took from the cache, or a truncated Brack.toml.
---
 crates/brack-project-manager/src/atomic.rs  | 13 +++++++++++++
 crates/brack-project-manager/src/lib.rs     |  1 +
 crates/brack-project-manager/src/plugin.rs  |  8 ++++----
 crates/brack-project-manager/src/project.rs |  3 ++-
 4 files changed, 20 insertions(+), 5 deletions(-)
 create mode 100644 crates/brack-project-manager/src/atomic.rs

diff --git a/crates/brack-project-manager/src/atomic.rs b/crates/brack-project-manager/src/atomic.rs
new file mode 100644
index 0000000..650c1a3
--- /dev/null
+++ b/crates/brack-project-manager/src/atomic.rs
@@ -0,0 +1,13 @@
+use anyhow::Result;
+use std::{fs, io::Write, path::Path};
+
+/// Writes a file so that, even after a crash, it has its old content or its new content in full.
+pub(crate) fn write<P: AsRef<Path>>(path: P, content: &[u8]) -> Result<()> {
+    let mut tmp_path = path.as_ref().as_os_str().to_owned();
+    tmp_path.push(".tmp");
+    let mut file = fs::File::create(&tmp_path)?;
+    file.write_all(content)?;
+    file.sync_all()?;
+    fs::rename(&tmp_path, path)?;
+    Ok(())
+}
diff --git a/crates/brack-project-manager/src/lib.rs b/crates/brack-project-manager/src/lib.rs
index 20b99d4..11fbe54 100644
--- a/crates/brack-project-manager/src/lib.rs
+++ b/crates/brack-project-manager/src/lib.rs
@@ -1,3 +1,4 @@
+mod atomic;
 pub mod config;
 pub mod document;
 pub mod plugin;
diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 388dd5e..15cedc1 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -1,7 +1,8 @@
+use crate::atomic;
 use crate::config::Config;
 use core::fmt;
 use sha2::{Digest, Sha256};
-use std::{collections::HashMap, fs::File, io, path::Path};
+use std::{collections::HashMap, path::Path};
 
 use anyhow::Result;
 use serde::{
@@ -262,8 +263,7 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
 
     let bytes = response.bytes().await?;
     std::fs::create_dir_all("plugins")?;
-    let mut out = File::create(format!("plugins/{}.wasm", repository_name))?;
-    io::copy(&mut bytes.as_ref(), &mut out)?;
+    atomic::write(format!("plugins/{}.wasm", repository_name), &bytes)?;
 
     config.plugins.get_or_insert_with(HashMap::new).insert(
         plugin_name.to_string(),
@@ -278,7 +278,7 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         },
     );
     let toml = toml::to_string(&config)?;
-    std::fs::write("Brack.toml", toml)?;
+    atomic::write("Brack.toml", toml.as_bytes())?;
 
     Ok(())
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 285447e..e90539b 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -1,3 +1,4 @@
+use crate::atomic;
 use crate::config::Config;
 use crate::plugin::PluginSchema;
 use anyhow::Result;
@@ -116,7 +117,7 @@ impl Project {
             for result in results {
                 let (name, path, bytes, flag) = result??;
                 std::fs::create_dir_all(self.plugins_dir())?;
-                std::fs::write(&path, &bytes)?;
+                atomic::write(&path, &bytes)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
         }
-- 
2.43.0


From 3aee386f18214f1ec9efe1eb4b4ae51eb19a7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 24/35] fix: download a plugin again for another backend

The plugin to download depends on the backend, but the name it is cached under
did not, so after a change of the backend the old backend's plugin was used.
---
 crates/brack-project-manager/src/plugin.rs  | 4 ++--
 crates/brack-project-manager/src/project.rs | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 15cedc1..ba7266e 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -172,9 +172,9 @@ impl<'de> Deserialize<'de> for PluginSchema {
 }
 
 impl PluginSchema {
-    pub fn hash_sha256(&self) -> String {
+    pub fn hash_sha256(&self, backend: &str) -> String {
         let mut hasher = Sha256::new();
-        hasher.update(format!("{:?}", self));
+        hasher.update(format!("{:?}", (self, backend)));
         format!("{:x}", hasher.finalize())
     }
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index e90539b..ea71ea6 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -51,9 +51,11 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
-                let path =
-                    self.plugins_dir()
-                        .join(format!("{}_{}.wasm", name, plugin.hash_sha256()));
+                let path = self.plugins_dir().join(format!(
+                    "{}_{}.wasm",
+                    name,
+                    plugin.hash_sha256(&self.config.document.backend)
+                ));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
-- 
2.43.0


From a3de6f2a3103b6bc87dbb54d9238c5526fae8431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 25/35] fix: let compile find plugins whatever their name

Only names of letters were recognised, and anywhere in the path: a plugin named
"std2" was ignored and "my-plugin" was loaded as "plugin".
---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 28ab2fb..6fdfe71 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,13 +31,14 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         None => std::env::var("BRACK_PLUGINS_PATH").unwrap_or_default(),
     };
 
-    let pattern = Regex::new(r"(?<module_name>[[:alpha:]]+)_[[:alnum:]]+.wasm").unwrap();
+    let pattern = Regex::new(r"^(?<module_name>.+)_[[:alnum:]]+\.wasm$").unwrap();
     let entries = std::fs::read_dir(plugins_dir_path)?;
     for entry in entries {
         let entry = entry?;
         let path = entry.path();
         let capture = pattern.captures(
-            path.to_str()
+            path.file_name()
+                .and_then(|name| name.to_str())
                 .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
         );
         if let Some(capture) = capture {
-- 
2.43.0


From 13182596d4e402869637f75f2a43a0de709fbf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 26/35] fix: quote the project name in a new Brack.toml

A name with a quote or a backslash gave a Brack.toml that cannot be loaded.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6fdfe71..0477e56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -132,14 +132,14 @@ fn new_project(name: &str) -> Result<()> {
         format!("{}/Brack.toml", name),
         format!(
             r#"[document]
-name = "{}"
+name = {}
 version = "0.1.0"
 backend = ""
 authors = ["your name <your email>"]
 
 [plugins]
 "#,
-            name
+            toml::Value::from(name)
         ),
     )?;
     std::fs::write(
-- 
2.43.0


From 8769c38710803e68312106aafb6611829b572b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 27/35] fix: keep the blanks inside a command's argument

They were removed with the blanks around the argument, so a command got
"helloworld" for "hello world", contrary to the README's example.
---
 crates/brack-transformer/src/utils.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 1b38525..ce2d3d4 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -1,4 +1,4 @@
-use brack_parser::cst::{new_expr, CST};
+use brack_parser::cst::{new_expr, new_text, CST};
 
 use crate::error::TransformError;
 
@@ -112,10 +112,29 @@ pub fn check_unexpected_dot(csts: &[CST]) -> Vec<TransformError> {
 
 pub fn remove_whitespaces_and_newlines(csts: &Vec<CST>) -> Vec<CST> {
     let mut result = vec![];
+    let mut blanks = vec![];
     for cst in csts {
         match cst {
-            CST::Whitespace(_) | CST::Newline(_) => (),
-            _ => result.push(cst.clone()),
+            CST::Newline(_) => (),
+            CST::Whitespace(node) => blanks.push(new_text(" ".to_string(), node.location.clone())),
+            _ => {
+                // Blanks around an argument only separate it from its neighbours. Blanks inside it
+                // are part of its text.
+                let in_argument = result.len() > 4 // [BracketOpen, Module, Dot, Ident
+                    && !matches!(result.last(), Some(CST::Comma(_)))
+                    && !matches!(
+                        cst,
+                        CST::Comma(_)
+                            | CST::AngleBracketClose(_)
+                            | CST::CurlyBracketClose(_)
+                            | CST::SquareBracketClose(_)
+                    );
+                if in_argument {
+                    result.append(&mut blanks);
+                }
+                blanks.clear();
+                result.push(cst.clone());
+            }
         }
     }
     result
-- 
2.43.0


From 6c968377705bcc8088f432fe706434fc8c7959f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 28/35] fix: forget the header of a bracket when it is closed

The identifier of a command whose module is a macro was taken for text, and text after a
command without an identifier was taken for modules and identifiers.
---
 .../src/angle_bracket_close.rs                |  1 +
 .../src/curly_bracket_close.rs                |  1 +
 .../src/square_bracket_close.rs               |  1 +
 crates/brack-tokenizer/src/tokenizer.rs       | 30 +++++++++++++++++++
 4 files changed, 33 insertions(+)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 7d91c2e..69592cc 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -44,6 +44,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         pool: Some(String::new()),
         tokens: Some(tokens),
         angle_nest_count: Some(angle_nest_count - i32::from(t.is_nested())),
+        looking_for_identifier: Some(t.closes_module()),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 4ee6f98..f52de0f 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -44,6 +44,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         pool: Some(String::new()),
         tokens: Some(tokens),
         curly_nest_count: Some(curly_nest_count - i32::from(t.is_nested())),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 68ff423..9248aac 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -44,6 +44,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         pool: Some(String::new()),
         tokens: Some(tokens),
         square_nest_count: Some(square_nest_count - i32::from(t.is_nested())),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/tokenizer.rs b/crates/brack-tokenizer/src/tokenizer.rs
index 04fa7d3..bab6f90 100644
--- a/crates/brack-tokenizer/src/tokenizer.rs
+++ b/crates/brack-tokenizer/src/tokenizer.rs
@@ -27,6 +27,36 @@ impl Tokenizer {
         counts.iter().flatten().sum::<i32>() > 0
     }
 
+    /// Whether a bracket that is closed at the current position is the first thing inside another
+    /// bracket. It stands for the module of that bracket then, whose identifier is still to come.
+    pub fn closes_module(&self) -> bool {
+        // For each open bracket, whether there is something in it before the current position.
+        let mut open: Vec<bool> = vec![];
+        let mut escaped = false;
+        for token in self.tokens.iter().flatten() {
+            match token {
+                _ if escaped => (),
+                Token::AngleBracketOpen(_)
+                | Token::CurlyBracketOpen(_)
+                | Token::SquareBracketOpen(_) => {
+                    open.push(false);
+                    continue;
+                }
+                Token::AngleBracketClose(_)
+                | Token::CurlyBracketClose(_)
+                | Token::SquareBracketClose(_) => {
+                    open.pop();
+                }
+                _ => (),
+            }
+            escaped = !escaped && matches!(token, Token::BackSlash(_));
+            if let Some(used) = open.last_mut() {
+                *used = true;
+            }
+        }
+        matches!(open.iter().rev().nth(1), Some(false))
+    }
+
     pub fn merge(&self, other: &Tokenizer) -> Tokenizer {
         Tokenizer {
             uri: other.uri.clone(),
-- 
2.43.0


From 77f692eeb5f12440690bbbd9cdc9d769924c8611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 29/35] fix: do not report commas of a command whose header is
 incomplete

One missing module, dot or identifier was reported as a superfluous comma as well.
---
 crates/brack-transformer/src/angle.rs  | 13 +++++++++----
 crates/brack-transformer/src/curly.rs  | 13 +++++++++----
 crates/brack-transformer/src/square.rs | 13 +++++++++----
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/crates/brack-transformer/src/angle.rs b/crates/brack-transformer/src/angle.rs
index d14f708..95bfc92 100644
--- a/crates/brack-transformer/src/angle.rs
+++ b/crates/brack-transformer/src/angle.rs
@@ -47,13 +47,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     }
 
     errors.append(&mut check_if_the_first_and_last_node_are_brackets(&csts));
-    errors.append(&mut check_if_module_or_angle_bracket(&csts));
-    errors.append(&mut check_if_dot(&csts));
-    errors.append(&mut check_if_ident_or_angle_bracket(&csts));
+    let mut header_errors = check_if_module_or_angle_bracket(&csts);
+    header_errors.append(&mut check_if_dot(&csts));
+    header_errors.append(&mut check_if_ident_or_angle_bracket(&csts));
+    let is_header_complete = header_errors.is_empty();
+    errors.append(&mut header_errors);
     errors.append(&mut check_unexpected_dot(&csts));
     let csts = remove_whitespaces_and_newlines(&csts);
     let (csts, mut new_errors) = check_valid_arguments(&csts);
-    errors.append(&mut new_errors);
+    // Without a complete header there is no telling where the arguments begin.
+    if is_header_complete {
+        errors.append(&mut new_errors);
+    }
     let csts = remove_elements_not_included_ast(&csts);
 
     (
diff --git a/crates/brack-transformer/src/curly.rs b/crates/brack-transformer/src/curly.rs
index 1258f1c..d6ff96c 100644
--- a/crates/brack-transformer/src/curly.rs
+++ b/crates/brack-transformer/src/curly.rs
@@ -47,13 +47,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     }
 
     errors.append(&mut check_if_the_first_and_last_node_are_brackets(&csts));
-    errors.append(&mut check_if_module_or_angle_bracket(&csts));
-    errors.append(&mut check_if_dot(&csts));
-    errors.append(&mut check_if_ident_or_angle_bracket(&csts));
+    let mut header_errors = check_if_module_or_angle_bracket(&csts);
+    header_errors.append(&mut check_if_dot(&csts));
+    header_errors.append(&mut check_if_ident_or_angle_bracket(&csts));
+    let is_header_complete = header_errors.is_empty();
+    errors.append(&mut header_errors);
     errors.append(&mut check_unexpected_dot(&csts));
     let csts = remove_whitespaces_and_newlines(&csts);
     let (csts, mut new_errors) = check_valid_arguments(&csts);
-    errors.append(&mut new_errors);
+    // Without a complete header there is no telling where the arguments begin.
+    if is_header_complete {
+        errors.append(&mut new_errors);
+    }
     let csts = remove_elements_not_included_ast(&csts);
 
     (
diff --git a/crates/brack-transformer/src/square.rs b/crates/brack-transformer/src/square.rs
index ff6f0f2..7fb1686 100644
--- a/crates/brack-transformer/src/square.rs
+++ b/crates/brack-transformer/src/square.rs
@@ -47,13 +47,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     }
 
     errors.append(&mut check_if_the_first_and_last_node_are_brackets(&csts));
-    errors.append(&mut check_if_module_or_angle_bracket(&csts));
-    errors.append(&mut check_if_dot(&csts));
-    errors.append(&mut check_if_ident_or_angle_bracket(&csts));
+    let mut header_errors = check_if_module_or_angle_bracket(&csts);
+    header_errors.append(&mut check_if_dot(&csts));
+    header_errors.append(&mut check_if_ident_or_angle_bracket(&csts));
+    let is_header_complete = header_errors.is_empty();
+    errors.append(&mut header_errors);
     errors.append(&mut check_unexpected_dot(&csts));
     let csts = remove_whitespaces_and_newlines(&csts);
     let (csts, mut new_errors) = check_valid_arguments(&csts);
-    errors.append(&mut new_errors);
+    // Without a complete header there is no telling where the arguments begin.
+    if is_header_complete {
+        errors.append(&mut new_errors);
+    }
     let csts = remove_elements_not_included_ast(&csts);
 
     (
-- 
2.43.0


From 47fab7ce258455d39d67c320e7189cc77676bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 30/35] fix: report each superfluous comma once, where it is

After several commas before a closing bracket the last one was reported twice.
---
 crates/brack-transformer/src/utils.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index ce2d3d4..88a0382 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -65,32 +65,32 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
     let mut errors = vec![];
     let mut new_csts = csts[0..4].to_vec(); // [AngleBracketOpen, Module, Dot, Ident
     let mut expr = new_expr();
-    let mut previous_comma = false;
-    for i in 4..csts.len() {
-        match csts[i].clone() {
+    let mut comma: Option<CST> = None; // the comma after which no argument has come yet
+    for cst in csts.iter().skip(4) {
+        match cst {
             CST::Comma(_) => {
                 if expr.children().is_empty() {
-                    errors.push(TransformError::UnexpectedComma(csts[i].location()));
+                    errors.push(TransformError::UnexpectedComma(cst.location()));
                     continue;
                 }
                 new_csts.push(expr);
                 expr = new_expr();
-                previous_comma = true;
+                comma = Some(cst.clone());
             }
             CST::AngleBracketClose(_) | CST::CurlyBracketClose(_) | CST::SquareBracketClose(_) => {
                 if !expr.children().is_empty() {
                     new_csts.push(expr.clone());
-                } else if previous_comma {
-                    errors.push(TransformError::UnexpectedComma(csts[i - 1].location()));
+                } else if let Some(comma) = comma {
+                    errors.push(TransformError::UnexpectedComma(comma.location()));
                 }
                 expr = new_expr();
-                new_csts.push(csts[i].clone());
+                new_csts.push(cst.clone());
                 break;
             }
             CST::Dot(_) => continue, // reported by check_unexpected_dot
             _ => {
-                expr.add(csts[i].clone());
-                previous_comma = false;
+                expr.add(cst.clone());
+                comma = None;
             }
         }
     }
-- 
2.43.0


From 490ac3d06d39aa07f95a3130213e0457dd49cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 31/35] fix: build every document with fresh plugins

State kept by a plugin leaked from one document into the next, in the order in which the
directory lists them.
---
 crates/brack-project-manager/src/project.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index ea71ea6..bf743f4 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -127,12 +127,16 @@ impl Project {
         Ok(())
     }
 
-    pub fn build(&self) -> Result<()> {
+    fn load_plugins(&self) -> Result<Plugins> {
         let mut plugin_vec = vec![];
         for (name, (path, feature_flag)) in self.plugins_metadata.clone() {
             plugin_vec.push(Plugin::new(&name, path, feature_flag)?);
         }
-        let mut plugins = Plugins::new(plugin_vec)?;
+        Plugins::new(plugin_vec)
+    }
+
+    pub fn build(&self) -> Result<()> {
+        let mut loaded = Some(self.load_plugins()?);
 
         let out = self.root.join("out");
         std::fs::create_dir_all(&out)?;
@@ -146,6 +150,11 @@ impl Project {
                 .to_str()
                 .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
             if path.extension() == Some("[]".as_ref()) {
+                // Plugins may keep state, which must not leak from one document into another.
+                let mut plugins = match loaded.take() {
+                    Some(plugins) => plugins,
+                    None => self.load_plugins()?,
+                };
                 let tokenized = brack_tokenizer::tokenize::tokenize(path.to_str().unwrap())?;
                 let parsed = brack_parser::parse::parse(&tokenized)?;
                 let (ast, _errors) = brack_transformer::transform::transform(&parsed);
-- 
2.43.0


From aa4199805b669689b18ff94893c2478a2752ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:21 +0000
Subject: [PATCH 32/35] fix: reject malformed plugin specifiers instead of
 misreading them

---
 crates/brack-project-manager/src/plugin.rs | 32 +++++++++-------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index ba7266e..e96d84d 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -189,28 +189,22 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         return Err(anyhow::anyhow!("Brack.toml is not found."));
     }
 
-    let repository_type = schema
-        .split(':')
-        .next()
+    let (repository_type, rest) = schema
+        .split_once(':')
         .ok_or_else(|| anyhow::anyhow!("Repository type is not found."))?;
-    let owner = schema
-        .split('/')
-        .next()
-        .ok_or_else(|| anyhow::anyhow!("Owner is not found."))?
-        .split(':')
-        .nth(1)
+    let (owner, rest) = rest
+        .split_once('/')
+        .filter(|(owner, _)| !owner.is_empty() && !owner.contains([':', '@']))
         .ok_or_else(|| anyhow::anyhow!("Owner is not found."))?;
-    let repo = schema
-        .split('/')
-        .nth(1)
-        .ok_or_else(|| anyhow::anyhow!("Repository is not found."))?
-        .split('@')
-        .next()
-        .ok_or_else(|| anyhow::anyhow!("Repository is not found."))?;
-    let version = schema
-        .split('@')
-        .nth(1)
+    let (repo, version) = rest
+        .split_once('@')
         .ok_or_else(|| anyhow::anyhow!("Version is not found."))?;
+    if repo.is_empty() || repo.contains(['/', ':']) {
+        return Err(anyhow::anyhow!("Repository is not found."));
+    }
+    if version.is_empty() {
+        return Err(anyhow::anyhow!("Version is not found."));
+    }
     let url = match repository_type {
         "github" => format!("https://github.com/{}/{}", owner, repo),
         _ => {
-- 
2.43.0


From 2d97ea580af869a85d4045083eafc36bd4d0b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 33/35] fix: ignore files that cannot be plugins in compile

---
 src/main.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0477e56..9ac2e82 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -36,11 +36,11 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
     for entry in entries {
         let entry = entry?;
         let path = entry.path();
-        let capture = pattern.captures(
-            path.file_name()
-                .and_then(|name| name.to_str())
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
-        );
+        // a file whose name is not even UTF-8 is no plugin
+        let capture = path
+            .file_name()
+            .and_then(|name| name.to_str())
+            .and_then(|name| pattern.captures(name));
         if let Some(capture) = capture {
             let module_name = capture.name("module_name").unwrap().as_str();
             pathes.insert(module_name.to_string(), (path, FeatureFlag::default()));
-- 
2.43.0


From 7fc7591c6ec4d8f2a95e66064d789a389e1e1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:51 +0000
Subject: [PATCH 34/35] fix: let two commands write the same file at the same
 time

Both used the same temporary file, so that one could rename away what the
other was still writing: a torn plugin stood at its final place, and the
other command failed.
---
 crates/brack-project-manager/src/atomic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/atomic.rs b/crates/brack-project-manager/src/atomic.rs
index 650c1a3..f226e07 100644
--- a/crates/brack-project-manager/src/atomic.rs
+++ b/crates/brack-project-manager/src/atomic.rs
@@ -4,7 +4,8 @@ use std::{fs, io::Write, path::Path};
 /// Writes a file so that, even after a crash, it has its old content or its new content in full.
 pub(crate) fn write<P: AsRef<Path>>(path: P, content: &[u8]) -> Result<()> {
     let mut tmp_path = path.as_ref().as_os_str().to_owned();
-    tmp_path.push(".tmp");
+    // Another command may be writing the same file.
+    tmp_path.push(format!(".{}.tmp", std::process::id()));
     let mut file = fs::File::create(&tmp_path)?;
     file.write_all(content)?;
     file.sync_all()?;
-- 
2.43.0


From bd6ecc8c4ff869854db943c43cf0646c579bbc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:03 +0000
Subject: [PATCH 35/35] fix: complete with the commands of the document's own
 project

The server kept one project only, so that completion in a document offered
the commands of whatever project a document was opened of last.
---
 .../brack-language-server/src/notification/did_open.rs |  2 +-
 crates/brack-language-server/src/request/completion.rs | 10 ++++++++--
 crates/brack-language-server/src/server.rs             |  4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_open.rs b/crates/brack-language-server/src/notification/did_open.rs
index 8e8b070..36b0b58 100644
--- a/crates/brack-language-server/src/notification/did_open.rs
+++ b/crates/brack-language-server/src/notification/did_open.rs
@@ -24,7 +24,7 @@ impl Server {
         let mut project = Project::new(root);
         if project.load_brack_toml().is_ok() {
             project.download_plugins_using_config().await?;
-            self.project = Some(project);
+            self.projects.insert(root.to_path_buf(), project);
         }
 
         Ok(())
diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 5888ccf..9ec4d56 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -33,11 +33,17 @@ impl Server {
         &self,
         params: CompletionParams,
     ) -> Result<Option<CompletionResponse>> {
-        if self.project.is_none() {
+        // root/docs/file.[] -> root
+        let uri = params.text_document_position.text_document.uri;
+        let project = uri.to_file_path().ok().and_then(|file_path| {
+            let root = file_path.parent()?.parent()?;
+            self.projects.get(root)
+        });
+        if project.is_none() {
             // BLS doesn't support single-file mode now.
             return Ok(None);
         }
-        let project = self.project.as_ref().unwrap();
+        let project = project.unwrap();
         let mut completion_items = vec![];
         let mut plugin_vec = vec![];
         for (name, (path, feature_flag)) in &project.plugins_metadata {
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index bee1692..b9e5e2a 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -3,6 +3,7 @@ use brack_project_manager::project::Project;
 use lsp_types::{ClientCapabilities, Diagnostic};
 use serde::Serialize;
 use serde_json::{from_slice, json, Value};
+use std::{collections::HashMap, path::PathBuf};
 use tokio::io::{stdin, stdout, AsyncReadExt, AsyncWriteExt};
 
 /// Removes the first complete message from the buffer and returns its content.
@@ -32,7 +33,8 @@ fn take_message(buffer: &mut Vec<u8>) -> Option<Vec<u8>> {
 #[derive(Default)]
 pub struct Server {
     pub(crate) client_capabilities: ClientCapabilities,
-    pub(crate) project: Option<Project>,
+    /// The projects of the documents that were opened, by their root.
+    pub(crate) projects: HashMap<PathBuf, Project>,
 }
 
 impl Server {
-- 
2.43.0

