From 5d2c1af9d724f49a826f5526aba15677eaa4627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 01/21] fix: skip leading zeroes of integers without recursion

An INTEGER with a long run of leading zero octets exhausted the stack in builds
without tail-call optimization.
---
 src/ber/integer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ber/integer.rs b/src/ber/integer.rs
index 2ddb2a0..f75b72b 100644
--- a/src/ber/integer.rs
+++ b/src/ber/integer.rs
@@ -6,15 +6,15 @@ use crate::error::*;
 /// Returns a byte array of the requested size containing a big endian integer.
 fn remove_zeroes(bytes: &[u8]) -> Result<&[u8], BerError> {
     // skip leading 0s
-    match bytes {
-        // [] => Err(BerError::DerConstraintFailed),
-        [0] => Ok(bytes),
-        // [0, byte, ..] if *byte < 0x80 => Err(BerError::DerConstraintFailed),
-        // [0, rest @ ..] => Ok(&rest),
-        [0, rest @ ..] => remove_zeroes(rest),
-        // [byte, ..] if *byte >= 0x80 => Err(BerError::IntegerTooLarge),
-        _ => Ok(bytes),
+    let mut bytes = bytes;
+    while let [0, rest @ ..] = bytes {
+        // keep the last octet
+        if rest.is_empty() {
+            break;
+        }
+        bytes = rest;
     }
+    Ok(bytes)
 }
 
 // XXX const generics require rustc >= 1.51
-- 
2.43.0


From ce1dfcf229900ac71ddd3f42bdb936edf827e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 02/21] fix: as_i64/as_i32: report positive values above the
 maximum as too large

They wrapped to a negative number.
---
 src/ber/ber.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 47bb2d6..413fd9d 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -12,7 +12,7 @@ use asn1_rs::ASN1DateTime;
 use asn1_rs::Any;
 #[cfg(feature = "as_bitvec")]
 use bitvec::{order::Msb0, slice::BitSlice};
-use core::convert::TryFrom;
+use core::convert::{TryFrom, TryInto};
 use core::ops::Index;
 
 /// Representation of a BER-encoded (X.690) object
@@ -414,7 +414,9 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i64>::from_be_bytes(decode_array_int8(bytes)?)
             } else {
-                <u64>::from_be_bytes(decode_array_uint8(bytes)?) as i64
+                <u64>::from_be_bytes(decode_array_uint8(bytes)?)
+                    .try_into()
+                    .map_err(|_| BerError::IntegerTooLarge)?
             };
             Ok(result)
         } else {
@@ -441,7 +443,9 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i32>::from_be_bytes(decode_array_int4(bytes)?)
             } else {
-                <u32>::from_be_bytes(decode_array_uint4(bytes)?) as i32
+                <u32>::from_be_bytes(decode_array_uint4(bytes)?)
+                    .try_into()
+                    .map_err(|_| BerError::IntegerTooLarge)?
             };
             Ok(result)
         } else {
-- 
2.43.0


From af8913ff391e67b2a1f9b16c2b6268c765981af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 03/21] fix: DER: refuse an empty BIT STRING before reading its
 first octet

The octet read was the first one after the element, and '03 00' alone was
reported as incomplete.
---
 src/der/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 9a35b64..585b8c3 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -583,6 +583,9 @@ fn der_read_element_content_recursive<'a>(
 }
 
 fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectContent<'_>> {
+    if len == 0 {
+        return Err(Err::Error(BerError::InvalidLength));
+    }
     let (i, ignored_bits) = be_u8(i)?;
     if ignored_bits > 7 {
         return Err(Err::Error(BerError::invalid_value(
@@ -590,9 +593,6 @@ fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectCo
             "More than 7 unused bits".to_owned(),
         )));
     }
-    if len == 0 {
-        return Err(Err::Error(BerError::InvalidLength));
-    }
     let (i, data) = take(len - 1)(i)?;
     if len > 1 {
         let mut last_byte = data[len - 2];
-- 
2.43.0


From a1bb421371667a7c38c64039ca308c001a4b1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:03 +0000
Subject: [PATCH 04/21] fix: DER: refuse an INTEGER with a redundant leading
 0xff octet

X.690 8.3.2 forbids nine identical leading bits whatever the sign; only leading
zeroes were refused.
---
 src/der/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 585b8c3..f83ba62 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -518,6 +518,11 @@ pub fn der_read_element_content_as(
                         DerConstraint::IntegerLeadingZeroes,
                     )));
                 }
+                [0xff, byte, ..] if byte >= 0x80 => {
+                    return Err(Err::Error(BerError::DerConstraintFailed(
+                        DerConstraint::IntegerLeadingFF,
+                    )));
+                }
                 _ => (),
             }
         }
-- 
2.43.0


From 5d36c849da96360985c515253505bf89e57218d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 05/21] fix: DER: refuse a constructed OCTET STRING

X.690 10.2: the constructed form of encoding shall not be used for bitstring,
octetstring and restricted character string types. The octets of the inner
elements were returned as the value.
---
 src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index f83ba62..1f3d4d4 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -526,7 +526,8 @@ pub fn der_read_element_content_as(
                 _ => (),
             }
         }
-        Tag::NumericString
+        Tag::OctetString
+        | Tag::NumericString
         | Tag::VisibleString
         | Tag::PrintableString
         | Tag::Ia5String
-- 
2.43.0


From 9398d29785658ff283d86f936117af3f637bf5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:49 +0000
Subject: [PATCH 06/21] fix: DER: check the DER restrictions of nested elements

The content of a SEQUENCE or SET was read with the BER rules, so parse_der
accepted non-DER elements (indefinite lengths, BOOLEAN other than 00/ff,
non-minimal INTEGER...) inside any constructed object. Also refuse any element
when the depth limit is 0 (BIT STRING was accepted).
---
 src/der/parser.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 1f3d4d4..a209127 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -3,6 +3,7 @@ use crate::der::*;
 use crate::der_constraint_fail_if;
 use crate::error::*;
 use alloc::borrow::ToOwned;
+use alloc::vec::Vec;
 use asn1_rs::{Any, FromDer};
 use nom::bytes::streaming::take;
 use nom::number::streaming::be_u8;
@@ -485,6 +486,7 @@ pub fn der_read_element_content_as(
     constructed: bool,
     max_depth: usize,
 ) -> BerResult<'_, DerObjectContent<'_>> {
+    custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
     // Indefinite lengths are not allowed in DER (X.690 section 10.1)
     let l = length.definite()?;
     if i.len() < l {
@@ -541,6 +543,21 @@ pub fn der_read_element_content_as(
         | Tag::GeneralString => {
             der_constraint_fail_if!(i, constructed, DerConstraint::Constructed);
         }
+        Tag::Sequence | Tag::Set => {
+            custom_check!(i, l > MAX_OBJECT_SIZE, BerError::InvalidLength)?;
+            if !constructed {
+                return Err(Err::Error(BerError::ConstructExpected));
+            }
+            // the restrictions of DER also apply to the nested elements
+            let (i, data) = take(l)(i)?;
+            let objects = der_read_nested_elements(data, max_depth)?;
+            let content = if tag == Tag::Sequence {
+                DerObjectContent::Sequence(objects)
+            } else {
+                DerObjectContent::Set(objects)
+            };
+            return Ok((i, content));
+        }
         Tag::UtcTime | Tag::GeneralizedTime => {
             if l == 0 || i.get(l - 1).cloned() != Some(b'Z') {
                 return Err(Err::Error(BerError::DerConstraintFailed(
@@ -553,6 +570,24 @@ pub fn der_read_element_content_as(
     ber_read_element_content_as(i, tag, length, constructed, max_depth)
 }
 
+/// Parse the (complete) content of a constructed object as a list of DER objects
+fn der_read_nested_elements(
+    mut data: &[u8],
+    max_depth: usize,
+) -> Result<Vec<DerObject<'_>>, Err<BerError>> {
+    let mut objects = Vec::new();
+    while !data.is_empty() {
+        let (rem, obj) = parse_der_recursive(data, max_depth - 1).map_err(|e| match e {
+            // the missing bytes cannot be provided: the enclosing object is complete
+            Err::Incomplete(n) => Err::Error(BerError::Incomplete(n)),
+            e => e,
+        })?;
+        objects.push(obj);
+        data = rem;
+    }
+    Ok(objects)
+}
+
 /// Parse DER object content recursively
 ///
 /// *Note: an error is raised if recursion depth exceeds `MAX_RECURSION`.
-- 
2.43.0


From 31e07869807a16fe9f21301daa13e344a20bc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:50 +0000
Subject: [PATCH 07/21] fix: serialize: encode tag numbers above 30

ber_encode_header panicked (unimplemented) for the high-tag-number form.
---
 src/ber/serialize.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index d446805..245798f 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -44,12 +44,23 @@ pub fn ber_encode_header<'a, 'b: 'a, W: Write + 'a>(hdr: &'b Header) -> impl Ser
         // identifier octets (X.690 8.1.2)
         let class_u8 = (hdr.class() as u8) << 6;
         let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;
-        if hdr.tag().0 > 30 {
-            unimplemented!();
+        let tag = hdr.tag().0;
+        let mut identifier = Vec::new();
+        if tag > 30 {
+            // high-tag-number form (X.690 8.1.2.4)
+            identifier.push(class_u8 | pc_u8 | 0b0001_1111);
+            for shift in (0..5).rev().map(|n| 7 * n) {
+                if shift == 0 {
+                    identifier.push((tag & 0x7f) as u8);
+                } else if tag >> shift != 0 {
+                    identifier.push(0x80 | ((tag >> shift) & 0x7f) as u8);
+                }
+            }
+        } else {
+            identifier.push(class_u8 | pc_u8 | (tag as u8));
         }
-        let byte_0 = class_u8 | pc_u8 | (hdr.tag().0 as u8);
         // length octets (X.690 8.1.3)
-        tuple((be_u8(byte_0), encode_length(hdr.length())))(out)
+        tuple((slice(identifier), encode_length(hdr.length())))(out)
     }
 }
 
-- 
2.43.0


From a7914e1a67929efb621056a62d96e1d4ba5c7aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 08/21] fix: serialize: the end-of-content marker has no
 content octets

It was encoded as '00 01 00'.
---
 src/ber/serialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 245798f..0b78bed 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -128,7 +128,7 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
     c: &'a BerObjectContent,
 ) -> impl SerializeFn<W> + 'a {
     move |out| match c {
-        BerObjectContent::EndOfContent => be_u8(0)(out),
+        BerObjectContent::EndOfContent => Ok(out),
         BerObjectContent::Boolean(b) => {
             let b0 = if *b { 0xff } else { 0x00 };
             be_u8(b0)(out)
-- 
2.43.0


From c1f5275472e1e3e3fb8fa3a1ba8071bcf6e6319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 09/21] fix: serialize: encode the ENUMERATED value 0 on one
 octet

It was encoded without any content octet.
---
 src/ber/serialize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 0b78bed..5e341f4 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -140,12 +140,16 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
         BerObjectContent::OctetString(s) => slice(s)(out),
         BerObjectContent::Null => Ok(out),
         BerObjectContent::Enum(i) => {
-            let v: Vec<u8> = i
+            let mut v: Vec<u8> = i
                 .to_be_bytes()
                 .iter()
                 .cloned()
                 .skip_while(|&b| b == 0)
                 .collect();
+            if v.is_empty() {
+                // at least one content octet (X.690 8.4)
+                v.push(0);
+            }
             slice(v)(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-- 
2.43.0


From 224345206da9e0c4009f5d8f67045f3001f820b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:59 +0000
Subject: [PATCH 10/21] fix: serialize: do not encode absent optional values

They were encoded as an end-of-content marker.
---
 src/ber/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 5e341f4..efc7056 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -213,6 +213,10 @@ pub fn ber_encode_object<'a, 'b: 'a, W: Write + Default + AsRef<[u8]> + 'a>(
     obj: &'b BerObject,
 ) -> impl SerializeFn<W> + 'a {
     move |out| {
+        if let BerObjectContent::Optional(None) = obj.content {
+            // absent value
+            return Ok(out);
+        }
         // XXX should we make an exception for tagged values here ?
         let v = gen_simple(ber_encode_object_content(&obj.content), W::default())?;
         let len = v.as_ref().len();
-- 
2.43.0


From 4dde56e9604155d193a4ec2d5dd4909468d23e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:02 +0000
Subject: [PATCH 11/21] fix: serialize: encode UTCTime and GeneralizedTime so
 that they can be parsed back

UTCTime was encoded with a four-digit year, the time zone was replaced by Z, and
milliseconds lost their leading zeroes.
---
 src/ber/serialize.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index efc7056..66a0a37 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -1,7 +1,7 @@
 #![cfg(feature = "std")]
 use crate::ber::*;
 use crate::oid::Oid;
-use asn1_rs::ASN1DateTime;
+use asn1_rs::{ASN1DateTime, ASN1TimeZone};
 use cookie_factory::bytes::be_u8;
 use cookie_factory::combinator::slice;
 use cookie_factory::gen_simple;
@@ -71,9 +71,33 @@ fn ber_encode_oid<'a, W: Write + 'a>(oid: &'a Oid) -> impl SerializeFn<W> + 'a {
     }
 }
 
-fn ber_encode_datetime<'a, W: Write + 'a>(time: &'a ASN1DateTime) -> impl SerializeFn<W> + 'a {
+fn ber_encode_datetime<'a, W: Write + 'a>(
+    time: &'a ASN1DateTime,
+    utctime: bool,
+) -> impl SerializeFn<W> + 'a {
     move |out| {
-        let s = format!("{}", time);
+        let mut s = if utctime {
+            // UTCTime: two-digit year
+            format!("{:02}", time.year % 100)
+        } else {
+            format!("{:04}", time.year)
+        };
+        s += &format!(
+            "{:02}{:02}{:02}{:02}{:02}",
+            time.month, time.day, time.hour, time.minute, time.second
+        );
+        if let (Some(ms), false) = (time.millisecond, utctime) {
+            s += &format!(".{:03}", ms);
+        }
+        match time.tz {
+            ASN1TimeZone::Offset(hh, mm) => {
+                let sign = if hh < 0 { '-' } else { '+' };
+                s += &format!("{}{:02}{:02}", sign, hh.abs(), mm.abs());
+            }
+            // local time
+            ASN1TimeZone::Undefined if !utctime => (),
+            _ => s.push('Z'),
+        }
         slice(s)(out)
     }
 }
@@ -153,9 +177,8 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
             slice(v)(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-        BerObjectContent::UTCTime(time) | BerObjectContent::GeneralizedTime(time) => {
-            ber_encode_datetime(time)(out)
-        }
+        BerObjectContent::UTCTime(time) => ber_encode_datetime(time, true)(out),
+        BerObjectContent::GeneralizedTime(time) => ber_encode_datetime(time, false)(out),
         BerObjectContent::NumericString(s)
         | BerObjectContent::GeneralString(s)
         | BerObjectContent::ObjectDescriptor(s)
-- 
2.43.0


From 456f7fa879637b44ba5d7968920d614f04131ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 12/21] fix: BER: recognize the end-of-content marker by its
 two octets only

Any empty element with tag number 0 (a [0] tagged or constructed one, or one with
a long-form length) ended the content of the enclosing indefinite-length object,
and the marker was counted as a nesting level against the recursion limit.
---
 src/ber/parser.rs   | 20 +++++++++-----------
 src/ber/wrap_any.rs | 37 +++++++++++++++++++------------------
 2 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 7aea9cd..fc8f42e 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -10,22 +10,19 @@ pub const MAX_RECURSION: usize = 50;
 /// Default maximum object size (2^32)
 pub const MAX_OBJECT_SIZE: usize = 4_294_967_295;
 
-/// Skip object content, and return true if object was End-Of-Content
+/// Skip object content, including the End-Of-Content marker if the length is indefinite
 pub(crate) fn ber_skip_object_content<'a>(
     i: &'a [u8],
     hdr: &Header,
     max_depth: usize,
-) -> BerResult<'a, bool> {
+) -> BerResult<'a, ()> {
     if max_depth == 0 {
         return Err(Err::Error(BerError::BerMaxDepth));
     }
     match hdr.length() {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag() == Tag::EndOfContent {
-                return Ok((i, true));
-            }
             let (i, _) = take(l)(i)?;
-            Ok((i, false))
+            Ok((i, ()))
         }
         Length::Indefinite => {
             if hdr.is_primitive() {
@@ -35,12 +32,13 @@ pub(crate) fn ber_skip_object_content<'a>(
             // this is recursive
             let mut i = i;
             loop {
-                let (i2, header2) = ber_read_element_header(i)?;
-                let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
-                if eoc {
-                    // return false, since top object was not EndOfContent
-                    return Ok((i3, false));
+                // the marker is exactly these two octets (X.690 8.1.5), and is not an element: it
+                // does not count as a nesting level
+                if let [0, 0, rem @ ..] = i {
+                    return Ok((rem, ()));
                 }
+                let (i2, header2) = ber_read_element_header(i)?;
+                let (i3, _) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                 i = i3;
             }
         }
diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index 8d8a878..6c42ed2 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -1,7 +1,7 @@
 use alloc::string::String;
 
 use super::{BerObject, BerObjectContent, BitStringObject};
-use crate::ber::{ber_get_object_content, MAX_OBJECT_SIZE};
+use crate::ber::{ber_get_object_content, ber_read_element_header, MAX_OBJECT_SIZE, MAX_RECURSION};
 use crate::error::{BerError, BerResult};
 use alloc::vec::Vec;
 use asn1_rs::*;
@@ -12,7 +12,7 @@ use rusticata_macros::custom_check;
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     any.header.assert_tag(tag)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
@@ -23,14 +23,27 @@ pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResu
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_r(i: &[u8], max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
 }
 
 /// Parse any BER object (not recursive)
 pub fn parse_ber_any(i: &[u8]) -> BerResult<'_, Any<'_>> {
-    Any::from_ber(i)
+    let (i, header) = ber_read_element_header(i)?;
+    let (i, data) = ber_get_object_content(i, &header, MAX_RECURSION)?;
+    Ok((i, Any::new(header, data)))
+}
+
+/// Read the (complete) content of a constructed object as a list of objects
+fn try_berobjects_from_content(mut data: &[u8], max_depth: usize) -> Result<Vec<BerObject<'_>>> {
+    let mut objects = Vec::new();
+    while !data.is_empty() {
+        let (rem, any) = parse_ber_any(data)?;
+        objects.push(try_berobject_from_any(any, max_depth - 1)?);
+        data = rem;
+    }
+    Ok(objects)
 }
 
 macro_rules! from_obj {
@@ -144,24 +157,12 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
         }
         Tag::Sequence => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SequenceIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = try_berobjects_from_content(any.data, max_depth)?;
             Ok(obj_from(header, BerObjectContent::Sequence(objects)))
         }
         Tag::Set => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SetIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = try_berobjects_from_content(any.data, max_depth)?;
             Ok(obj_from(header, BerObjectContent::Set(objects)))
         }
         Tag::TeletexString => from_obj!(STRING TeletexString, T61String, any, header),
-- 
2.43.0


From 37dbddb80cda5eda25786e58a266875796eb2b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:17 +0000
Subject: [PATCH 13/21] fix: iterating over an empty SEQUENCE or SET yields
 nothing

The consuming iterator yielded the empty container itself.
---
 src/ber/ber.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 413fd9d..d31b5df 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -788,8 +788,8 @@ impl<'a> Iterator for BerObjectIntoIterator<'a> {
         //     None
         // };
         let res = match self.val.content {
-            BerObjectContent::Sequence(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
-            BerObjectContent::Set(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
+            BerObjectContent::Sequence(ref v) => v.get(self.idx).cloned(),
+            BerObjectContent::Set(ref v) => v.get(self.idx).cloned(),
             _ => {
                 if self.idx == 0 {
                     Some(self.val.clone())
-- 
2.43.0


From 9a25676cd2110dc86c06648dc9908008f5b94579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:20 +0000
Subject: [PATCH 14/21] fix: print: name a SEQUENCE by its content

A SEQUENCE with an implicit tag was printed as a Set.
---
 src/ber/print.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index 3553815..ba3272d 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -3,7 +3,7 @@ use crate::ber::{BerObject, BerObjectContent};
 use alloc::string::{String, ToString};
 use alloc::vec;
 use alloc::vec::Vec;
-use asn1_rs::{Class, Header, Length, Tag};
+use asn1_rs::{Class, Header, Length};
 use core::fmt;
 use core::iter::FromIterator;
 use core::str;
@@ -174,7 +174,7 @@ impl fmt::Debug for PrettyBer<'_> {
             },
             BerObjectContent::Set(ref v) |
             BerObjectContent::Sequence(ref v)        => {
-                let ty = if self.obj.header.tag() == Tag::Sequence { "Sequence" } else { "Set" };
+                let ty = if let BerObjectContent::Sequence(_) = self.obj.content { "Sequence" } else { "Set" };
                 if self.is_recursive() {
                     writeln!(f, "{}[", ty)?;
                     for o in v {
-- 
2.43.0


From 7d4fd6729728086d59a7b5177a7e829a24930963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:07 +0000
Subject: [PATCH 15/21] fix: BER: read implicit-tagged and undecoded objects of
 indefinite length

The content functions were given the delimited content (without end-of-content
marker) together with an indefinite length, so they looked for a marker that was
not there, failing or (with a nested marker) ending too early.
---
 src/ber/ber.rs    | 13 +++++++++++--
 src/ber/tagged.rs | 12 +++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index d31b5df..2e80c37 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -725,6 +725,15 @@ impl BerObject<'_> {
     }
 }
 
+/// Length to use when reading the delimited content of an object: if the length was indefinite, the
+/// end-of-content marker is not part of the content
+pub(crate) fn delimited_length(header: &Header, content: &[u8]) -> Length {
+    match header.length() {
+        Length::Indefinite => Length::Definite(content.len()),
+        length => length,
+    }
+}
+
 impl<'a> TryFrom<Any<'a>> for BerObject<'a> {
     type Error = asn1_rs::Error;
 
@@ -733,7 +742,7 @@ impl<'a> TryFrom<Any<'a>> for BerObject<'a> {
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            delimited_length(&header, data),
             header.constructed(),
             MAX_RECURSION,
         )?;
@@ -750,7 +759,7 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for BerObject<'a> {
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            delimited_length(&header, data),
             header.constructed(),
             MAX_RECURSION,
         )?;
diff --git a/src/ber/tagged.rs b/src/ber/tagged.rs
index cef5642..3857543 100644
--- a/src/ber/tagged.rs
+++ b/src/ber/tagged.rs
@@ -173,8 +173,12 @@ where
     T: Into<Tag>,
 {
     let tag = tag.into();
-    parse_ber_tagged_implicit_g(tag, move |i, hdr, depth| {
-        let (rem, content) = f(i, &hdr, depth)?;
+    parse_ber_container(move |i, hdr| {
+        hdr.assert_tag(tag).map_err(Err::Error)?;
+        // the content is delimited: its length is known even if it was indefinite
+        let content_hdr = hdr.clone().with_length(delimited_length(&hdr, i));
+        // XXX MAX_RECURSION should not be used, it resets the depth counter
+        let (rem, content) = f(i, &content_hdr, MAX_RECURSION)?;
         // trailing bytes are ignored
         let obj = BerObject::from_header_and_content(hdr, content);
         Ok((rem, obj))
@@ -252,8 +256,10 @@ where
     let tag = tag.into();
     parse_ber_container(move |i, hdr| {
         hdr.assert_tag(tag).map_err(|e| Err::Error(e.into()))?;
+        // the content is delimited: its length is known even if it was indefinite
+        let length = delimited_length(&hdr, i);
         // XXX MAX_RECURSION should not be used, it resets the depth counter
-        f(i, hdr, MAX_RECURSION)
+        f(i, hdr.with_length(length), MAX_RECURSION)
         // trailing bytes are ignored
     })
 }
-- 
2.43.0


From 10b624b215b78c67ae04e06355a72ed71cd23228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:16 +0000
Subject: [PATCH 16/21] fix: DER: refuse indefinite lengths in
 parse_der_explicit_optional and parse_der_implicit

They used the BER functions to read the header of the tagged object.
---
 src/der/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index a209127..839f72c 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -314,7 +314,12 @@ pub fn parse_der_explicit_optional<F>(i: &[u8], tag: Tag, f: F) -> DerResult<'_>
 where
     F: Fn(&[u8]) -> DerResult,
 {
-    parse_ber_explicit_optional(i, tag, f)
+    parse_ber_optional(parse_der_tagged_explicit_g(tag, |content, hdr| {
+        let (rem, obj) = f(content)?;
+        let content = DerObjectContent::Tagged(hdr.class(), hdr.tag(), Box::new(obj));
+        let tagged = DerObject::from_header_and_content(hdr, content);
+        Ok((rem, tagged))
+    }))(i)
 }
 
 /// Parse an implicit tagged object, applying function to read content
@@ -362,7 +367,7 @@ where
     F: Fn(&'a [u8], &'_ Header, usize) -> BerResult<'a, DerObjectContent<'a>>,
     T: Into<Tag>,
 {
-    parse_ber_implicit(i, tag, f)
+    parse_der_tagged_implicit(tag, f)(i)
 }
 
 /// Parse DER object and try to decode it as a 32-bits signed integer
-- 
2.43.0


From a9f19e60b08235bce752b2bc0cae3d2dff8340fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:49 +0000
Subject: [PATCH 17/21] fix: sequence-of/set-of: do not apply the item parser
 to the end of the content

An item parser that reports an error (rather than Incomplete) on empty
input made the whole list fail, even when all items were valid.
---
 src/ber/multi.rs | 7 ++++---
 src/der/multi.rs | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ber/multi.rs b/src/ber/multi.rs
index 0ace52c..79a4678 100644
--- a/src/ber/multi.rs
+++ b/src/ber/multi.rs
@@ -1,9 +1,10 @@
 use crate::ber::*;
 use crate::error::*;
 use nom::bytes::complete::take;
-use nom::combinator::{all_consuming, complete, cut, map};
+use nom::combinator::{all_consuming, complete, cut, eof, map, not};
 use nom::error::ParseError;
 use nom::multi::many0;
+use nom::sequence::preceded;
 use nom::{Err, IResult};
 
 /// Parse a SEQUENCE OF object
@@ -72,7 +73,7 @@ where
     F: FnMut(&'a [u8]) -> IResult<&'a [u8], T, E>,
     E: ParseError<&'a [u8]> + From<BerError>,
 {
-    let mut subparser = all_consuming(many0(complete(cut(f))));
+    let mut subparser = all_consuming(many0(preceded(not(eof), complete(cut(f)))));
     parse_ber_sequence_defined_g(move |data, _| subparser(data))
 }
 
@@ -295,7 +296,7 @@ where
     F: FnMut(&'a [u8]) -> IResult<&'a [u8], T, E>,
     E: ParseError<&'a [u8]> + From<BerError>,
 {
-    let mut subparser = all_consuming(many0(complete(cut(f))));
+    let mut subparser = all_consuming(many0(preceded(not(eof), complete(cut(f)))));
     parse_ber_set_defined_g(move |data, _| subparser(data))
 }
 
diff --git a/src/der/multi.rs b/src/der/multi.rs
index 79f3b91..05047c7 100644
--- a/src/der/multi.rs
+++ b/src/der/multi.rs
@@ -2,9 +2,10 @@ use crate::ber::Length;
 use crate::der::*;
 use crate::error::*;
 use nom::bytes::complete::take;
-use nom::combinator::{all_consuming, complete, cut, map};
+use nom::combinator::{all_consuming, complete, cut, eof, map, not};
 use nom::error::ParseError;
 use nom::multi::many0;
+use nom::sequence::preceded;
 use nom::{Err, IResult};
 
 /// Parse a SEQUENCE OF object
@@ -73,7 +74,7 @@ where
     F: FnMut(&'a [u8]) -> IResult<&'a [u8], T, E>,
     E: ParseError<&'a [u8]> + From<BerError>,
 {
-    let mut subparser = all_consuming(many0(complete(cut(f))));
+    let mut subparser = all_consuming(many0(preceded(not(eof), complete(cut(f)))));
     parse_der_sequence_defined_g(move |data, _| subparser(data))
 }
 
@@ -296,7 +297,7 @@ where
     F: FnMut(&'a [u8]) -> IResult<&'a [u8], T, E>,
     E: ParseError<&'a [u8]> + From<BerError>,
 {
-    let mut subparser = all_consuming(many0(complete(cut(f))));
+    let mut subparser = all_consuming(many0(preceded(not(eof), complete(cut(f)))));
     parse_der_set_defined_g(move |data, _| subparser(data))
 }
 
-- 
2.43.0


From f906af28b10b4475aa412a80a1c934a6cf41d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:15 +0000
Subject: [PATCH 18/21] fix: serialize: encode tagged and optional objects with
 the tag of the value they hold

---
 src/ber/serialize.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 66a0a37..a7f72c7 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -236,11 +236,15 @@ pub fn ber_encode_object<'a, 'b: 'a, W: Write + Default + AsRef<[u8]> + 'a>(
     obj: &'b BerObject,
 ) -> impl SerializeFn<W> + 'a {
     move |out| {
-        if let BerObjectContent::Optional(None) = obj.content {
+        match obj.content {
             // absent value
-            return Ok(out);
+            BerObjectContent::Optional(None) => return Ok(out),
+            BerObjectContent::Optional(Some(ref inner)) => return ber_encode_object(inner)(out),
+            BerObjectContent::Tagged(class, tag, ref inner) => {
+                return ber_encode_tagged_explicit(tag, class, inner)(out);
+            }
+            _ => (),
         }
-        // XXX should we make an exception for tagged values here ?
         let v = gen_simple(ber_encode_object_content(&obj.content), W::default())?;
         let len = v.as_ref().len();
         let hdr = obj.header.clone().with_length(len.into());
-- 
2.43.0


From cbcd9736422459afc8022b15ac1373b392c96e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:31 +0000
Subject: [PATCH 19/21] fix: serialize: encode ENUMERATED values as
 non-negative integers

---
 src/ber/serialize.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index a7f72c7..a99c153 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -170,9 +170,9 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
                 .cloned()
                 .skip_while(|&b| b == 0)
                 .collect();
-            if v.is_empty() {
-                // at least one content octet (X.690 8.4)
-                v.push(0);
+            if v.first().map_or(true, |b| b & 0x80 != 0) {
+                // encoded as an INTEGER: at least one octet, and not negative (X.690 8.4)
+                v.insert(0, 0);
             }
             slice(v)(out)
         }
-- 
2.43.0


From 85ecd8b2526ca2245c174f88a7f6a8160ae366ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:51 +0000
Subject: [PATCH 20/21] fix: der-oid-macro: accept a line break after rel in
 the printed tokens

---
 der-oid-macro/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index afac8c2..e63e66c 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -66,8 +66,9 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
 pub fn encode_oid(input: TokenStream) -> TokenStream {
     let s = input.to_string();
 
-    let (rem, relative) = if s.starts_with("rel ") {
-        (&s[4..], true)
+    // the printed tokens may be separated by a line break instead of a space
+    let (rem, relative) = if s.starts_with("rel") && s[3..].starts_with(char::is_whitespace) {
+        (&s[3..], true)
     } else {
         (s.as_ref(), false)
     };
-- 
2.43.0


From 5c388956ec985ba9a199a9112d4d382305d1d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 21/21] fix: der-oid-macro refuses first arcs above 2

An object identifier starts with 0, 1 or 2. encode_oid!(3.1) was accepted and
encoded as 0x79, which is 2.41; encode_oid!(6.20) overflowed the octet.
---
 der-oid-macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index e63e66c..06310f3 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -12,7 +12,7 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
             }
             panic!("Need at least two components for non-relative oid");
         }
-        if dec[0] >= 7u8.into() || dec[1] >= 40u8.into() {
+        if dec[0] > 2u8.into() || dec[1] >= 40u8.into() {
             panic!("First components are too big");
         }
         enc.push(dec[0].to_u8().unwrap() * 40 + dec[1].to_u8().unwrap());
-- 
2.43.0

