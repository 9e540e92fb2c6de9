From c893281a8511cc570b65a756b283f2e59931f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 01/11] fix: parse nested comments without recursion

---
 email-parser/src/parsing/whitespaces.rs | 28 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 928f41f..875497e 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -44,14 +44,26 @@ pub fn ccontent(input: &[u8]) -> Res<Cow<str>> {
 
 #[inline]
 pub fn comment(input: &[u8]) -> Res<Cow<str>> {
-    let (input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
-
-    let (input, _) = ignore_many(input, |input| {
-        pair(input, |i| Ok(optional(i, fws)), ccontent)
-    })?;
-
-    let (input, _) = optional(input, fws);
-    let (input, ()) = tag(input, b")", "TAG ERROR: A comment must end with a `)`.")?;
+    let (mut input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
+
+    // Nested comments are counted instead of being parsed recursively: the nesting is chosen by the sender and must not be able to exhaust the stack.
+    let mut depth: usize = 1;
+    while depth > 0 {
+        let (new_input, _) = optional(input, fws);
+        input = if let Ok((new_input, _text)) = take_while1(new_input, is_ctext) {
+            new_input
+        } else if let Ok((new_input, _pair)) = quoted_pair(new_input) {
+            new_input
+        } else if new_input.starts_with(b"(") {
+            depth += 1;
+            &new_input[1..]
+        } else {
+            let (new_input, ()) =
+                tag(new_input, b")", "TAG ERROR: A comment must end with a `)`.")?;
+            depth -= 1;
+            new_input
+        };
+    }
 
     Ok((input, empty_string()))
 }
-- 
2.43.0


From b3d3c76855207e6bb47a67a9821d94c41ff8d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 02/11] fix: accept years from 1900 on, as RFC 5322 does

---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index e90fca3..cd281d7 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -68,8 +68,8 @@ pub fn year(input: &[u8]) -> Res<usize> {
         .parse()
         .map_err(|_e| Error::Unknown("Failed to parse year"))?;
 
-    if year < 1990 {
-        return Err(Error::Unknown("year must be after 1990"));
+    if year < 1900 {
+        return Err(Error::Unknown("year must be 1900 or later"));
     }
 
     let (input, _) = fws(input)?;
-- 
2.43.0


From 6fdf941b003647f46911b901845f5050a461aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 03/11] fix: reject day 0

---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index cd281d7..243feca 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -85,8 +85,8 @@ pub fn day(input: &[u8]) -> Res<u8> {
         day += digit;
         input = new_input;
     }
-    if day > 31 {
-        return Err(Error::Unknown("day must be less than 31"));
+    if day == 0 || day > 31 {
+        return Err(Error::Unknown("day must be between 1 and 31"));
     }
     let (input, _) = fws(input)?;
     Ok((input, day))
-- 
2.43.0


From c20caf6b08e0c5ed21339f8c1ddf64abadb073a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 04/11] fix: accept an empty Bcc header

---
 email-parser/src/parsing/fields.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 8a47b9d..d1caaff 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -278,10 +278,9 @@ pub fn bcc(input: &[u8]) -> Res<Vec<Address>> {
     )?;
     let (input, mailbox) = if let Ok((input, list)) = address_list(input) {
         (input, list)
-    } else if let Ok((input, _cfws)) = cfws(input) {
-        (input, Vec::new())
     } else {
-        return Err(Error::Unknown("Invalid bcc field"));
+        let (input, _cfws) = optional(input, cfws);
+        (input, Vec::new())
     };
     let (input, ()) = tag(
         input,
-- 
2.43.0


From a4291b915a2d8564960276a17f68256835d1b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 05/11] fix: do not overflow on 256 parameter continuations

---
 email-parser/src/parsing/mime/percent_encoding.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 643fb9f..ffe2993 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -175,7 +175,10 @@ pub fn collect_parameters<'a>(
                 } else {
                     add_string(&mut value, new_value);
                 }
-                idx += 1;
+                idx = match idx.checked_add(1) {
+                    Some(idx) => idx,
+                    None => break,
+                };
             }
 
             parameters.insert(Cow::Owned(name.clone().into_owned()), value);
-- 
2.43.0


From 96b5664564d8caf2b9e7727b03b862b52b28e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 06/11] fix: do not panic on undefined ISO 6937 bytes

---
 email-parser/src/parsing/mime/encoded_headers.rs  |  2 +-
 email-parser/src/parsing/mime/entity.rs           |  2 +-
 email-parser/src/parsing/mime/mod.rs              | 12 ++++++++++++
 email-parser/src/parsing/mime/percent_encoding.rs |  2 +-
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/encoded_headers.rs b/email-parser/src/parsing/mime/encoded_headers.rs
index e8d3fcf..8565066 100644
--- a/email-parser/src/parsing/mime/encoded_headers.rs
+++ b/email-parser/src/parsing/mime/encoded_headers.rs
@@ -106,7 +106,7 @@ pub fn encoded_word(input: &[u8]) -> Res<Cow<str>> {
         "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&value)),
         "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&value)),
         "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&value)),
-        "iso-6937" => Cow::Owned(iso6937::decode_to_string(&value)),
+        "iso-6937" => Cow::Owned(super::decode_iso6937(&value)),
         "gb2312" => Cow::Owned(gb2312::decode_to_string(&value)),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index 86ab886..a2716af 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -76,7 +76,7 @@ pub fn entity<'a>(raw_entity: &'a RawEntity<'a>) -> Result<Entity<'a>, Error> {
                 "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&raw_entity.value)),
                 "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&raw_entity.value)),
                 "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&raw_entity.value)),
-                "iso-6937" => Cow::Owned(iso6937::decode_to_string(&raw_entity.value)),
+                "iso-6937" => Cow::Owned(super::decode_iso6937(&raw_entity.value)),
                 "gb2312" => Cow::Owned(gb2312::decode_to_string(&raw_entity.value)),
                 _ => return Ok(Entity::Unknown),
             };
diff --git a/email-parser/src/parsing/mime/mod.rs b/email-parser/src/parsing/mime/mod.rs
index 695a5d5..b55414b 100644
--- a/email-parser/src/parsing/mime/mod.rs
+++ b/email-parser/src/parsing/mime/mod.rs
@@ -6,3 +6,15 @@ pub(crate) mod mime_fields;
 pub(crate) mod multipart;
 pub(crate) mod percent_encoding;
 pub(crate) mod quoted_printables;
+
+/// Decodes ISO 6937.\
+/// This charset leaves the bytes 0x80..=0x9F undefined and the decoder of textcode panics on them, so they are ignored (just like in ISO 8859 charsets).
+fn decode_iso6937(data: &[u8]) -> String {
+    let mut defined = Vec::new();
+    for byte in data {
+        if *byte < 0x80 || *byte > 0x9F {
+            defined.push(*byte);
+        }
+    }
+    textcode::iso6937::decode_to_string(&defined)
+}
diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index ffe2993..2e8a4ef 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -87,7 +87,7 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         "iso-8859-14" => iso8859_14::decode_to_string(&input),
         "iso-8859-15" => iso8859_15::decode_to_string(&input),
         "iso-8859-16" => iso8859_16::decode_to_string(&input),
-        "iso-6937" => iso6937::decode_to_string(&input),
+        "iso-6937" => super::decode_iso6937(&input),
         "gb2312" => gb2312::decode_to_string(&input),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
-- 
2.43.0


From 3b858a17a5e02dfeaa1b8abbca644137432cfe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 07/11] fix: build with mime but not content-disposition, and
 with sender but not from

---
 email-parser/src/email.rs               | 3 +++
 email-parser/src/parsing/mime/entity.rs | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/email.rs b/email-parser/src/email.rs
index 164e667..34be7e9 100644
--- a/email-parser/src/email.rs
+++ b/email-parser/src/email.rs
@@ -311,6 +311,7 @@ impl<'a> Email<'a> {
         #[cfg(feature = "sender")]
         let sender = match sender {
             Some(sender) => sender,
+            #[cfg(feature = "from")]
             None => {
                 if from.len() == 1 {
                     from[0].clone()
@@ -318,6 +319,8 @@ impl<'a> Email<'a> {
                     return Err(Error::MissingHeader("Sender"));
                 }
             }
+            #[cfg(not(feature = "from"))]
+            None => return Err(Error::MissingHeader("Sender")),
         };
 
         #[cfg(feature = "mime")]
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index a2716af..528f4ee 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -13,7 +13,7 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         additional_headers,
         id,
         description,
-        disposition,
+        _disposition,
     ) = match input {
         Cow::Borrowed(ref mut input) => {
             let (len, r) = header_part(input)?;
@@ -34,7 +34,8 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         description,
         id,
         parameters,
-        disposition,
+        #[cfg(feature = "content-disposition")]
+        disposition: _disposition,
         value,
         additional_headers,
     })
-- 
2.43.0


From e69009e3965d44311aeaa45d561db85d69acc18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 08/11] fix: compare MIME types, dispositions and encodings as
 whole tokens

---
 email-parser/src/parsing/mime/mime_fields.rs | 43 +++++++++++++-------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 06660c4..bf3c2f9 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -21,6 +21,21 @@ fn token(input: &[u8]) -> Res<&str> {
     })
 }
 
+/// A keyword in any letter case, which must be a token by itself and not only the beginning of one.
+#[inline]
+fn keyword<'a>(
+    input: &'a [u8],
+    expected: &'static [u8],
+    expected2: &'static [u8],
+    error_message: &'static str,
+) -> Res<'a, ()> {
+    let (input, ()) = tag_no_case(input, expected, expected2, error_message)?;
+    if token(input).is_ok() {
+        return Err(Error::Explicit(error_message));
+    }
+    Ok((input, ()))
+}
+
 pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     let (input, ()) = tag_no_case(
         input,
@@ -157,7 +172,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
         input,
         &mut [
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"text",
                     b"TEXT",
@@ -166,7 +181,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Text))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"multipart",
                     b"MULTIPART",
@@ -175,11 +190,11 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Multipart))
             },
             |input| {
-                tag_no_case(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
+                keyword(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
                     .map(|(i, ())| (i, ContentType::Application))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"image",
                     b"IMAGE",
@@ -188,7 +203,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Image))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"video",
                     b"VIDEO",
@@ -197,7 +212,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Video))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"audio",
                     b"AUDIO",
@@ -206,7 +221,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Audio))
             },
             |input| {
-                tag_no_case(
+                keyword(
                     input,
                     b"message",
                     b"MESSAGE",
@@ -259,10 +274,10 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
         input,
         &mut [
             |input| {
-                tag_no_case(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
+                keyword(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
             },
             |input| {
-                tag_no_case(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
+                keyword(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
                     .map(|(i, ())| (i, DispositionType::Attachment))
             },
             |input| {
@@ -371,23 +386,23 @@ pub fn content_transfer_encoding(input: &[u8]) -> Res<ContentTransferEncoding> {
         input,
         &mut [
             |input| {
-                tag_no_case(input, b"7bit", b"7BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `7bit` encoding does not match.")
+                keyword(input, b"7bit", b"7BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `7bit` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::SevenBit))
             },
             |input| {
-                tag_no_case(input, b"quoted-printable", b"QUOTED-PRINTABLE", "TAG NO CASE ERROR: In a content transfer encoding header, `quoted-printable` encoding does not match.")
+                keyword(input, b"quoted-printable", b"QUOTED-PRINTABLE", "TAG NO CASE ERROR: In a content transfer encoding header, `quoted-printable` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::QuotedPrintable))
             },
             |input| {
-                tag_no_case(input, b"base64", b"BASE64", "TAG NO CASE ERROR: In a content transfer encoding header, `base64` encoding does not match.")
+                keyword(input, b"base64", b"BASE64", "TAG NO CASE ERROR: In a content transfer encoding header, `base64` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::Base64))
             },
             |input| {
-                tag_no_case(input, b"8bit", b"8BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `8bit` encoding does not match.")
+                keyword(input, b"8bit", b"8BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `8bit` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::HeightBit))
             },
             |input| {
-                tag_no_case(input, b"binary", b"BINARY", "TAG NO CASE ERROR: In a content transfer encoding header, `binary` encoding does not match.")
+                keyword(input, b"binary", b"BINARY", "TAG NO CASE ERROR: In a content transfer encoding header, `binary` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::Binary))
             },
             |input| {
-- 
2.43.0


From 45178c02a87559070fddd5ffabac8883e4d978d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 09/11] fix: do not look for multipart boundaries after the
 closing one

---
 email-parser/src/parsing/mime/multipart.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/email-parser/src/parsing/mime/multipart.rs b/email-parser/src/parsing/mime/multipart.rs
index 82c6123..c7ed385 100644
--- a/email-parser/src/parsing/mime/multipart.rs
+++ b/email-parser/src/parsing/mime/multipart.rs
@@ -22,6 +22,14 @@ fn before_boundary_idx(input: &[u8], boundary: &[u8]) -> Result<(usize, usize),
         {
             return Ok((idx, full_boundary_len));
         }
+
+        // what follows the closing boundary is the epilogue
+        if input.get(idx..idx + 4) == Some(b"\r\n--")
+            && input.get(idx + 4..idx + 4 + boundary.len()) == Some(boundary)
+            && input.get(idx + 4 + boundary.len()..idx + full_boundary_len + 2) == Some(b"--\r\n")
+        {
+            break;
+        }
     }
 
     Err(Error::Unknown("boundary not found"))
-- 
2.43.0


From 9f00f2fc62e215b39da78b993e1c4254d8814a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 10/11] fix: decode each percent-encoded byte of a parameter
 once

---
 .../src/parsing/mime/percent_encoding.rs      | 47 ++++++++-----------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 2e8a4ef..ddeb09c 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use std::{borrow::Cow, collections::HashMap};
 
-pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String, Error> {
+pub fn decode_parameter(input: Vec<u8>, charset: Cow<str>) -> Result<String, Error> {
     if ![
         "utf-8",
         "us-ascii",
@@ -33,39 +33,32 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         return Ok(unsafe { String::from_utf8_unchecked(input.to_vec()) });
     }
 
-    let mut percents = Vec::new();
-    for (idx, byte) in input.iter().enumerate() {
-        if *byte == b'%' {
-            percents.push(idx);
+    fn from_hex(n: &u8) -> Option<u8> {
+        match n {
+            b'0'..=b'9' => Some(n - b'0'),
+            b'A'..=b'F' => Some(10 + n - b'A'),
+            b'a'..=b'f' => Some(10 + n - b'a'),
+            _ => None,
         }
     }
 
-    for percent in percents.iter().rev() {
-        fn from_hex(n: &u8) -> Option<u8> {
-            match n {
-                b'0'..=b'9' => Some(n - b'0'),
-                b'A'..=b'F' => Some(10 + n - b'A'),
-                b'a'..=b'f' => Some(10 + n - b'a'),
-                _ => None,
-            }
-        }
-
-        if let (Some(first), Some(second)) = (input.get(percent + 1), input.get(percent + 2)) {
-            if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                let n = first * 16 + second;
-                // JUSTIFICATION
-                //  Benefit
-                //      Improve performances by avoiding useless index checks.
-                //  Correctness:
-                //      We never delete items before `percent`. Since `percent` is decreasing, there is always an item at this index.
-                unsafe {
-                    *input.get_unchecked_mut(*percent) = n;
+    // The decoded bytes are never looked at again: `%%341` is `%` followed by `%34` and `1`.
+    let mut decoded = Vec::with_capacity(input.len());
+    let mut idx = 0;
+    while let Some(byte) = input.get(idx) {
+        if *byte == b'%' {
+            if let (Some(first), Some(second)) = (input.get(idx + 1), input.get(idx + 2)) {
+                if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
+                    decoded.push(first * 16 + second);
+                    idx += 3;
+                    continue;
                 }
-                input.remove(percent + 2);
-                input.remove(percent + 1);
             }
         }
+        decoded.push(*byte);
+        idx += 1;
     }
+    let input = decoded;
 
     use textcode::*;
     let text = match charset.as_ref() {
-- 
2.43.0


From 140187971bfaff9afb9badbc8b01aa1076d19d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 11/11] fix: move RFC 2231 parameter names into the result
 instead of copying them

A name of a reassembled parameter is a stretch of the message, but was
returned as an owned copy.
---
 email-parser/src/parsing/mime/percent_encoding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index ddeb09c..7acfdb7 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -106,7 +106,7 @@ pub fn collect_parameters<'a>(
             parameters.insert(name, value);
         }
     }
-    for (name, values) in complex_parameters.iter_mut() {
+    for (name, mut values) in complex_parameters {
         if let Some((encoded, value)) = values.remove(&0) {
             let (mut value, charset, _language) = if encoded {
                 match value {
@@ -174,7 +174,7 @@ pub fn collect_parameters<'a>(
                 };
             }
 
-            parameters.insert(Cow::Owned(name.clone().into_owned()), value);
+            parameters.insert(name, value);
         }
     }
     Ok(parameters)
-- 
2.43.0

