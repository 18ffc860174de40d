From e9a6fc9bafbf6acd9adff448bfbbb645b7358eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 1/7] fix: encode dynamic text passed to from_unencoded_str

---
 src/text/encoded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text/encoded.rs b/src/text/encoded.rs
index 689e1ba..317bb2b 100644
--- a/src/text/encoded.rs
+++ b/src/text/encoded.rs
@@ -90,7 +90,9 @@ impl EncodedText {
 
     pub(crate) fn from_unencoded_str(value: &str) -> EncodedText {
         EncodedText {
-            value: text::Deferred::Actual(value.into()),
+            value: text::Deferred::Actual(
+                encode_str_optional(value).unwrap_or_else(|| value.into()),
+            ),
         }
     }
 
-- 
2.43.0


From 307eb8c23a06291f385f1e833660e4c6978e8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 2/7] fix: decode template files as a whole instead of per read
 buffer

---
 src/template.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 6d2cd2b..fb0f697 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -159,7 +159,7 @@ impl Template {
                 error,
             })?;
 
-        let mut input = String::new();
+        let mut input = Vec::new();
         let limit = options
             .max_input_len
             .unwrap_or_else(usize::max_value);
@@ -177,22 +177,8 @@ impl Template {
                     break 'read;
                 }
 
-                let valid_data = match str::from_utf8(data) {
-                    Ok(valid_data) => valid_data,
-                    Err(error) =>
-                        if error.valid_up_to() == 0 {
-                            return Err(FileError::Decode {
-                                path: path.into(),
-                                error,
-                            });
-                        } else {
-                            str::from_utf8(&data[..error.valid_up_to()])
-                                .expect("verified utf8")
-                        },
-                };
-            
-                input.push_str(valid_data);
-                valid_data.len()
+                input.extend_from_slice(data);
+                data.len()
             };
 
             if input.len() > limit {
@@ -205,7 +191,13 @@ impl Template {
             buffer.consume(consumed_len);
         }
 
-        Template::from_str(&input, options)
+        let input = str::from_utf8(&input)
+            .map_err(|error| FileError::Decode {
+                path: path.into(),
+                error,
+            })?;
+
+        Template::from_str(input, options)
             .map_err(|error| FileError::Input {
                 path: path.into(),
                 error,
-- 
2.43.0


From e4db3021d59165e392b2d97482fc4f843210d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 3/7] fix: keep leading whitespace of attribute values

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 92b50e5..3c865a7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -571,7 +571,7 @@ fn try_parse_attribute<'i>(tag: &str, input: input::Input<'i>)
     };
     let value_start = rest.location();
     let rest = match rest.take_char('"') {
-        Some(rest) => rest.skip_whitespace(),
+        Some(rest) => rest,
         None => return Err(Error::InvalidAttributeValue { 
             location: value_start,
             tag: tag.into(),
-- 
2.43.0


From 71e346c6b504d073d9bd08c5cda4fad9048a2d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 4/7] fix: name the right tags in closing tag error messages

---
 src/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c865a7..a6eb965 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -238,7 +238,7 @@ impl fmt::Display for Error {
             Error::InvalidOpeningTagIdentifier { location, .. } =>
                 write!(fmt, "Invalid opening tag identifier at {}", location),
             Error::InvalidClosingTagIdentifier { location, .. } =>
-                write!(fmt, "Invalid opening tag identifier at {}", location),
+                write!(fmt, "Invalid closing tag identifier at {}", location),
             Error::InvalidAttributeIdentifier { location, .. } =>
                 write!(fmt, "Invalid attribute identifier at {}", location),
             Error::InvalidAttributeValue { ref tag, ref attribute_name, location } =>
@@ -285,10 +285,10 @@ impl fmt::Display for Error {
                 closing_location,
             } =>
                 write!(fmt, "Closing tag '{}' at {} does not match opening tag '{}' at {}",
-                    opening_tag,
-                    opening_location,
                     closing_tag,
                     closing_location,
+                    opening_tag,
+                    opening_location,
                 ),
         }
     }
-- 
2.43.0


From 48199a4e546d5aeeb89e7b72209f469eb3906265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 5/7] fix: reject identifiers containing a single quote, which
 the parser cannot read

---
 src/text/identifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/identifier.rs b/src/text/identifier.rs
index ffcef58..4489e9b 100644
--- a/src/text/identifier.rs
+++ b/src/text/identifier.rs
@@ -103,7 +103,7 @@ impl error::Error for IdentifierError {
 pub(crate) fn validate(value: &str) -> Result<&str, IdentifierError> {
     use std::ascii::{ AsciiExt };
 
-    const FORBIDDEN: &[char] = &['=', '"', '/', '>', '<', '&', ',', ';'];
+    const FORBIDDEN: &[char] = &['=', '"', '\'', '/', '>', '<', '&', ',', ';'];
 
     if value.is_empty() {
         return Err(IdentifierError::Empty);
-- 
2.43.0


From eac489f3e143052a7b0533aa80c6b3a6b5e44922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 6/7] fix: compare texts by content, not by how they are stored

---
 src/text/deferred.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/text/deferred.rs b/src/text/deferred.rs
index 6b6c09f..0416dc5 100644
--- a/src/text/deferred.rs
+++ b/src/text/deferred.rs
@@ -3,12 +3,19 @@ use std::ops;
 use std::str;
 use std::fmt;
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub(crate) enum Deferred<T> {
     StaticStr(&'static str),
     Actual(T),
 }
 
+impl<T> PartialEq for Deferred<T> where T: ops::Deref<Target=str> {
+
+    fn eq(&self, other: &Deferred<T>) -> bool { **self == **other }
+}
+
+impl<T> Eq for Deferred<T> where T: ops::Deref<Target=str> {}
+
 impl<T> Deferred<T> where T: From<&'static str> {
 
     pub(crate) fn into_actual(self) -> T {
-- 
2.43.0


From af71ec2d5859b65a09e31afc6e2e316b9e506aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 7/7] fix: report unfinished tags at the location where the tag
 was started

---
 src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a6eb965..6b7ff10 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -534,7 +534,7 @@ fn try_parse_tag_close(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedClosingTagClose {
             tag: (*identifier).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
@@ -643,7 +643,7 @@ fn try_parse_tag_open(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedOpeningTagClose {
             tag: (*tag).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
-- 
2.43.0

