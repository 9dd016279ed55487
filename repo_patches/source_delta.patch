From bc52f179f1cc6a3a63f54fad1e436bbe5b1d7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:22 +0000
Subject: [PATCH 1/4] fix: return an error instead of panicking on unparsable
 input

`parse` returns a `Result` but asserted that everything was consumed, so any
document that is not entirely well formed panicked. Report the unparsed rest
as an error instead.
---
 src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 378268e..d4085ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,10 +82,9 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
-    assert!(
-        remaining.is_empty(),
-        "There is redundant raw data after parsing"
-    );
+    if !remaining.is_empty() {
+        return Err(Err::Error((remaining, ErrorKind::Eof)));
+    }
     Ok(parsed)
 }
 
-- 
2.43.0


From c5c68195903e8d6fd8d77f915e8a0b27ad00d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:22 +0000
Subject: [PATCH 2/4] fix: accept a line comment that ends at the end of the
 input

WebIDL comments follow `\/\/.*`; the terminating newline is not part of the
comment and may be missing on the last line of a file.
---
 src/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whitespace.rs b/src/whitespace.rs
index e6bbf0a..6106394 100644
--- a/src/whitespace.rs
+++ b/src/whitespace.rs
@@ -5,7 +5,7 @@ pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
         input,
         many0!(alt!(
             // ignores line comments
-            do_parse!(tag!("//") >> take_until!("\n") >> char!('\n') >> (()))
+            do_parse!(tag!("//") >> take_while!(|c| c != '\n') >> (()))
             |
             // ignores whitespace
             map!(take_while1!(|c| c == '\t' || c == '\n' || c == '\r' || c == ' '), |_| ())
-- 
2.43.0


From 4c1737d8c14176cbf4e6c1e59fbd4ff853b9d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:22 +0000
Subject: [PATCH 3/4] fix: accept documents made of whitespace and comments
 only

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d4085ce..fd5d8aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,6 +82,8 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
+    // A document without definitions may still contain whitespace & comments
+    let (remaining, _) = whitespace::sp(remaining)?;
     if !remaining.is_empty() {
         return Err(Err::Error((remaining, ErrorKind::Eof)));
     }
-- 
2.43.0


From 7845779b89941488b7d00fb7cb0a8eaed152f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:22 +0000
Subject: [PATCH 4/4] fix: require at least one digit in hexadecimal literals

The literal is documented as `-?0[Xx][0-9A-Fa-f]+` but `0x` was accepted.
---
 src/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.rs b/src/literal.rs
index 34d9bb1..aae7e60 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -19,7 +19,7 @@ ast_types! {
                 opt!(char!('-')) >>
                 char!('0') >>
                 alt!(char!('x') | char!('X')) >>
-                take_while!(|c: char| c.is_ascii_hexdigit()) >>
+                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                 (())
             ))),
         )),
-- 
2.43.0

