From aa8f173d9685675ed0fde4e66b66ebdb805e37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 01/78] fix: reject tag numbers that do not fit in 32 bits

---
 src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 1be4e9a..29c000f 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -522,6 +522,11 @@ pub(crate) fn parse_header(
                 return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
             }
 
+            // tag number must fit in u32
+            if c > (u32::MAX >> 7) {
+                return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
+            }
+
             c = (c << 7) | (u32::from(b) & 0x7f);
             let done = b & 0x80 == 0;
             tag_byte_count += 1;
-- 
2.43.0


From 323a82f99b04cc18e797a689d2ac23dee536d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 02/78] fix: equal headers must have the same hash

---
 src/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 29c000f..8537a40 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -474,8 +474,8 @@ impl Hash for Header<'_> {
         self.class.hash(state);
         self.constructed.hash(state);
         self.tag.hash(state);
-        self.length.hash(state);
-        self.raw_tag.hash(state);
+        // `length` and `raw_tag` are not always compared by `PartialEq`: equal headers must have
+        // the same hash, so they cannot be part of it
     }
 }
 
-- 
2.43.0


From 6202a254e75b3a84b610ce8cb6421662364d1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 03/78] fix: only two zero octets terminate an
 indefinite-length object

---
 src/ber/parser.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index a12a84e..b8c75b5 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -1,6 +1,6 @@
 use crate::error::*;
 use crate::header::*;
-use crate::{BerMode, BerParser, DerMode, Input, Length, Tag};
+use crate::{BerMode, BerParser, DerMode, Input, Length};
 use nom::bytes::streaming::take;
 use nom::{Err, IResult, Input as _};
 
@@ -28,7 +28,7 @@ impl GetObjectContent for BerMode {
         max_depth: usize,
     ) -> IResult<Input<'a>, Input<'a>, BerError<Input<'a>>> {
         let start_i = i.clone();
-        let (i, _) = ber_skip_object_content(i, hdr, max_depth)?;
+        let (i, ()) = ber_skip_object_content(i, hdr, max_depth)?;
         let len = i.span().start - start_i.span().start;
         if hdr.length().is_definite() {
             Ok(start_i.take_split(len))
@@ -82,22 +82,19 @@ pub fn der_get_content<'i>(
     DerMode::get_object_content(header, input, MAX_RECURSION)
 }
 
-/// Skip object content, and return true if object was End-Of-Content
+/// Skip object content (including End-Of-Content if length is indefinite)
 fn ber_skip_object_content<'a>(
     i: Input<'a>,
     hdr: &Header,
     max_depth: usize,
-) -> IResult<Input<'a>, bool, BerError<Input<'a>>> {
+) -> IResult<Input<'a>, (), BerError<Input<'a>>> {
     if max_depth == 0 {
         return Err(Err::Error(BerError::new(i, InnerError::BerMaxDepth)));
     }
     match hdr.length {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag == Tag::EndOfContent {
-                return Ok((i, true));
-            }
             let (i, _) = take(l)(i)?;
-            Ok((i, false))
+            Ok((i, ()))
         }
         Length::Indefinite => {
             hdr.assert_constructed_inner()
@@ -106,12 +103,12 @@ fn ber_skip_object_content<'a>(
             // this is recursive
             let mut i = i;
             loop {
-                let (i2, header2) = Header::parse_ber(i)?;
-                let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
-                if eoc {
-                    // return false, since top object was not EndOfContent
-                    return Ok((i3, false));
+                // EndOfContent is exactly two zero octets (X.690: 8.1.5)
+                if i.as_bytes2().starts_with(&[0, 0]) {
+                    return Ok((i.take_from(2), ()));
                 }
+                let (i2, header2) = Header::parse_ber(i)?;
+                let (i3, ()) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                 i = i3;
             }
         }
-- 
2.43.0


From 5710f232cb3a708c3e1dd278ba718c1a36202f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 04/78] fix: segments of a constructed string must have its
 universal type

---
 src/ber/appendable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 84e1a1e..c3cdd54 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -42,14 +42,14 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if obj.header.tag() == Tag::EndOfContent {
+            if obj.header.is_universal() && obj.header.tag() == Tag::EndOfContent {
                 break;
             }
             let Any {
                 header: h2,
                 data: data2,
             } = obj;
-            if !<T as DynTagged>::accept_tag(h2.tag()) {
+            if !h2.is_universal() || !<T as DynTagged>::accept_tag(h2.tag()) {
                 return Err(BerError::nom_err_input(&data2, InnerError::InvalidTag));
             }
             // Empty segments are sometimes allowed (for ex: OctetStrings). Just skip recursion if empty
-- 
2.43.0


From 9d7aec83475aac758b16c81efda8db143fe1a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 05/78] fix: decode RELATIVE-OID objects as relative OIDs

---
 src/asn1_types/oid.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 8f83713..2cbd1ed 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -59,7 +59,12 @@ impl<'i> BerParser<'i> for Oid<'i> {
         }
 
         let (rem, data) = input.take_split(input.len());
-        Ok((rem, Oid::new(Cow::Borrowed(data.as_bytes2()))))
+        let asn1 = Cow::Borrowed(data.as_bytes2());
+        if header.is_universal() && header.tag() == Tag::RelativeOid {
+            Ok((rem, Oid::new_relative(asn1)))
+        } else {
+            Ok((rem, Oid::new(asn1)))
+        }
     }
 }
 
-- 
2.43.0


From 3caebd8a8315c2363dc485859c3ab10fc4e623a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 06/78] fix: encode and decode the first two components of an
 OID as one subidentifier

---
 impl/src/lib.rs       |  10 ++--
 src/asn1_types/oid.rs | 123 +++++++++++++++++++-----------------------
 2 files changed, 62 insertions(+), 71 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index ea635cc..91e2b07 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -23,11 +23,15 @@ pub fn encode_oid(input: TokenStream) -> TokenStream {
             }
             return create_error("Need at least two components for non-relative oid");
         }
-        if items[0] > 2 || items[1] > 39 {
+        if items[0] > 2 || (items[0] < 2 && items[1] > 39) {
             return create_error("First components are too big");
         }
-        let first_byte = (items[0] * 40 + items[1]) as u8;
-        v.push(first_byte);
+        // first two components are encoded in one subidentifier (X.690: 8.19.4)
+        let first = match (items[0] * 40).checked_add(items[1]) {
+            Some(first) => first,
+            None => return create_error("First components are too big"),
+        };
+        v.extend_from_slice(&encode_base128(first));
         items = &items[2..];
     }
     for &int in items {
diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 2cbd1ed..6174089 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -6,7 +6,7 @@ use alloc::format;
 use alloc::string::{String, ToString};
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
-use core::{fmt, iter::FusedIterator, marker::PhantomData, ops::Shl, str::FromStr};
+use core::{fmt, iter::FusedIterator, ops::Shl, str::FromStr};
 use displaydoc::Display;
 use nom::Input as _;
 use num_traits::Num;
@@ -18,8 +18,8 @@ pub enum OidParseError {
     /// Encoded data length too short
     TooShort,
     /** Signalizes that the first or second component is too large.
-     * The first must be within the range 0 to 6 (inclusive).
-     * The second component must be less than 40.
+     * The first must be within the range 0 to 2 (inclusive).
+     * The second component must be less than 40 if the first is 0 or 1.
      */
     FirstComponentsTooLarge,
     /// a
@@ -170,12 +170,14 @@ impl<'a> Oid<'a> {
             }
             return Err(OidParseError::TooShort);
         }
-        if s[0] >= 7 || s[1] >= 40 {
+        if s[0] > 2 || (s[0] < 2 && s[1] >= 40) {
             return Err(OidParseError::FirstComponentsTooLarge);
         }
-        let asn1_encoded: Vec<u8> = [(s[0] * 40 + s[1]) as u8]
-            .iter()
-            .copied()
+        // first two components are encoded in one subidentifier (X.690: 8.19.4)
+        let first = (s[0] * 40)
+            .checked_add(s[1])
+            .ok_or(OidParseError::FirstComponentsTooLarge)?;
+        let asn1_encoded: Vec<u8> = encode_relative(&[first])
             .chain(encode_relative(&s[2..]))
             .collect();
         Ok(Oid {
@@ -264,8 +266,7 @@ impl<'a> Oid<'a> {
         SubIdentifierIterator {
             oid: self,
             pos: 0,
-            first: false,
-            n: PhantomData,
+            second: None,
         }
     }
 
@@ -273,33 +274,21 @@ impl<'a> Oid<'a> {
     /// Returns `None` if at least one arc does not fit into `u64`.
     pub fn iter(&'_ self) -> Option<impl FusedIterator<Item = u64> + ExactSizeIterator + '_> {
         // Check that every arc fits into u64
-        let bytes = if self.relative {
-            &self.asn1
-        } else if self.asn1.is_empty() {
-            &[]
-        } else {
-            &self.asn1[1..]
-        };
-        let max_bits = bytes
-            .iter()
-            .fold((0usize, 0usize), |(max, cur), c| {
-                let is_end = (c >> 7) == 0u8;
-                if is_end {
-                    (max.max(cur + 7), 0)
-                } else {
-                    (max, cur + 7)
-                }
-            })
-            .0;
-        if max_bits > 64 {
-            return None;
+        let mut arc = 0u64;
+        for c in self.asn1.iter() {
+            if arc > (u64::MAX >> 7) {
+                return None;
+            }
+            arc = (arc << 7) | u64::from(c & 0x7f);
+            if (c >> 7) == 0u8 {
+                arc = 0;
+            }
         }
 
         Some(SubIdentifierIterator {
             oid: self,
             pos: 0,
-            first: false,
-            n: PhantomData,
+            second: None,
         })
     }
 
@@ -325,14 +314,14 @@ impl<'a> Oid<'a> {
     }
 }
 
-trait Repr: Num + Shl<usize, Output = Self> + From<u8> {}
-impl<N> Repr for N where N: Num + Shl<usize, Output = N> + From<u8> {}
+trait Repr: Num + PartialOrd + Shl<usize, Output = Self> + From<u8> {}
+impl<N> Repr for N where N: Num + PartialOrd + Shl<usize, Output = N> + From<u8> {}
 
 struct SubIdentifierIterator<'a, N: Repr> {
     oid: &'a Oid<'a>,
     pos: usize,
-    first: bool,
-    n: PhantomData<&'a N>,
+    /// Second component, encoded in the same subidentifier as the first (X.690: 8.19.4)
+    second: Option<N>,
 }
 
 impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
@@ -341,22 +330,13 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
     fn next(&mut self) -> Option<Self::Item> {
         use num_traits::identities::Zero;
 
+        if let Some(second) = self.second.take() {
+            return Some(second);
+        }
         if self.pos == self.oid.asn1.len() {
             return None;
         }
-        if !self.oid.relative {
-            if !self.first {
-                debug_assert!(self.pos == 0);
-                self.first = true;
-                return Some((self.oid.asn1[0] / 40).into());
-            } else if self.pos == 0 {
-                self.pos += 1;
-                if self.oid.asn1[0] == 0 && self.oid.asn1.len() == 1 {
-                    return None;
-                }
-                return Some((self.oid.asn1[0] % 40).into());
-            }
-        }
+        let is_first = self.pos == 0 && !self.oid.relative;
         // decode objet sub-identifier according to the asn.1 standard
         let mut res = <N as Zero>::zero();
         for o in self.oid.asn1[self.pos..].iter() {
@@ -367,33 +347,40 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
                 break;
             }
         }
+        if is_first && self.oid.asn1.as_ref() != [0] {
+            let (first, second) = if res < 40.into() {
+                (0, res)
+            } else if res < 80.into() {
+                (1, res - 40.into())
+            } else {
+                (2, res - 80.into())
+            };
+            self.second = Some(second);
+            return Some(first.into());
+        }
         Some(res)
     }
-}
-
-impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
 
-impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {
-    fn len(&self) -> usize {
-        if self.oid.relative {
-            self.oid.asn1.iter().filter(|o| (*o >> 7) == 0u8).count()
-        } else if self.oid.asn1.is_empty() {
-            0
-        } else if self.oid.asn1.len() == 1 {
-            if self.oid.asn1[0] == 0 {
-                1
-            } else {
-                2
-            }
-        } else {
-            2 + self.oid.asn1[2..]
-                .iter()
-                .filter(|o| (*o >> 7) == 0u8)
-                .count()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let rem = &self.oid.asn1[self.pos..];
+        // number of sub-identifiers not read yet (the last one may be truncated)
+        let mut count = rem.iter().filter(|o| (*o >> 7) == 0u8).count();
+        if rem.last().map_or(false, |o| (o >> 7) != 0u8) {
+            count += 1;
+        }
+        // the first sub-identifier contains two components
+        let is_first = self.pos == 0 && !self.oid.relative && !rem.is_empty();
+        if self.second.is_some() || (is_first && rem != [0]) {
+            count += 1;
         }
+        (count, Some(count))
     }
 }
 
+impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
+
+impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {}
+
 impl fmt::Display for Oid<'_> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if self.relative {
-- 
2.43.0


From c1078d6d1cce64d87a5af8c3eb79cafec919af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 07/78] fix: a relative OID is not a prefix of a non-relative
 one

---
 src/asn1_types/oid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 6174089..4b1a54e 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -310,7 +310,7 @@ impl<'a> Oid<'a> {
 
     /// Returns true if `needle` is a prefix of the OID.
     pub fn starts_with(&self, needle: &Oid) -> bool {
-        self.asn1.len() >= needle.asn1.len() && self.asn1.starts_with(needle.as_bytes())
+        self.relative == needle.relative && self.asn1.starts_with(needle.as_bytes())
     }
 }
 
-- 
2.43.0


From a1d7d4a3b354a23dd6ff2e56b74f25c4c680c560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 08/78] fix: checking DER constraints of an empty BOOLEAN must
 not panic

---
 src/asn1_types/boolean.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/boolean.rs b/src/asn1_types/boolean.rs
index e23d8fd..9db1a9f 100644
--- a/src/asn1_types/boolean.rs
+++ b/src/asn1_types/boolean.rs
@@ -74,7 +74,10 @@ impl<'i> DerParser<'i> for Boolean {
 
 impl CheckDerConstraints for Boolean {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        let c = match any.data.as_bytes() {
+            [c] => *c,
+            _ => return Err(Error::InvalidLength),
+        };
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
@@ -135,7 +138,10 @@ impl_tryfrom_any!(bool);
 
 impl CheckDerConstraints for bool {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        let c = match any.data.as_bytes() {
+            [c] => *c,
+            _ => return Err(Error::InvalidLength),
+        };
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
-- 
2.43.0


From ae004da89c3c8c60fae29175f203f72a115df7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 09/78] fix: reject INTEGER objects without contents octets
 when decoding fixed-size integers

---
 src/asn1_types/integer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index ffc581e..9a747e2 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -94,6 +94,10 @@ macro_rules! impl_int {
             ) -> IResult<Input<'i>, Self, Self::Error> {
                 // Encoding shall be primitive (X.690: 8.3.1)
                 header.assert_primitive_input(&input).map_err(Err::Error)?;
+                // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+                if input.is_empty() {
+                    return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
+                }
 
                 let uint = if is_highest_bit_set(input.as_bytes2()) {
                     let ar = decode_array_int(input.as_bytes2())
@@ -202,6 +206,10 @@ macro_rules! impl_uint {
             ) -> IResult<Input<'i>, Self, Self::Error> {
                 // Encoding shall be primitive (X.690: 8.3.1)
                 header.assert_primitive_input(&input).map_err(Err::Error)?;
+                // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+                if input.is_empty() {
+                    return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
+                }
 
                 let ar = decode_array_uint(input.as_bytes2())
                     .map_err(|e| BerError::nom_err_input(&input, e.into()))?;
-- 
2.43.0


From 866d5074a8ed72f7917b5034c43853153322e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 10/78] fix: decode the segments of constructed BMPString and
 UniversalString objects

---
 src/asn1_types/strings/bmpstring.rs       | 6 +++---
 src/asn1_types/strings/universalstring.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index c53ee4f..30e04a8 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -61,13 +61,13 @@ impl<'i> BerParser<'i> for BmpString<'i> {
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
         let (rem, data) = if header.is_constructed() {
-            let (rem, data) = input.take_split(input.len());
-            (rem, Cow::Borrowed(data.as_bytes2()))
-        } else {
             let (rem, s) =
                 parse_ber_segmented::<OctetString>(header, input, OCTETSTRING_MAX_RECURSION)?;
             let s = s.into_cow();
             (rem, s)
+        } else {
+            let (rem, data) = input.take_split(input.len());
+            (rem, Cow::Borrowed(data.as_bytes2()))
         };
 
         // read slice as big-endian UTF-16 string
diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index 3da718c..5231e82 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -61,13 +61,13 @@ impl<'i> BerParser<'i> for UniversalString<'i> {
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
         let (rem, data) = if header.is_constructed() {
-            let (rem, data) = input.take_split(input.len());
-            (rem, Cow::Borrowed(data.as_bytes2()))
-        } else {
             let (rem, s) =
                 parse_ber_segmented::<OctetString>(header, input, OCTETSTRING_MAX_RECURSION)?;
             let s = s.into_cow();
             (rem, s)
+        } else {
+            let (rem, data) = input.take_split(input.len());
+            (rem, Cow::Borrowed(data.as_bytes2()))
         };
 
         if data.len() % 4 != 0 {
-- 
2.43.0


From 28d90cc8d0c4711cb79be9846df75043bb49f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 11/78] fix: reject BMPString objects with an odd number of
 octets

---
 src/asn1_types/strings/bmpstring.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index 30e04a8..e56786f 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -70,13 +70,19 @@ impl<'i> BerParser<'i> for BmpString<'i> {
             (rem, Cow::Borrowed(data.as_bytes2()))
         };
 
+        if data.len() % 2 != 0 {
+            return Err(BerError::nom_err_input(
+                &rem,
+                InnerError::StringInvalidCharset,
+            ));
+        }
+
         // read slice as big-endian UTF-16 string
         let v = data
             .as_ref()
             .chunks(2)
             .map(|s| match s {
                 [a, b] => ((*a as u16) << 8) | (*b as u16),
-                [a] => *a as u16,
                 _ => unreachable!(),
             })
             .collect::<Vec<_>>();
-- 
2.43.0


From 12e1fece0b179f6f1a0a3cef81e8d85cf3719b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:44 +0000
Subject: [PATCH 12/78] fix: compute the length of UniversalString contents
 from characters, not UTF-8 octets

---
 src/asn1_types/strings/universalstring.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index 5231e82..cfadd0d 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -137,15 +137,17 @@ const _: () = {
 
         fn ber_content_len(&self) -> Length {
             // UCS-4: 4 bytes per character
-            let sz = self.data.len() * 4;
+            let sz = self.data.chars().count() * 4;
             Length::Definite(sz)
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.data
-                .chars()
-                .try_for_each(|c| target.write_all(&(c as u32).to_be_bytes()[..]))?;
-            Ok(self.data.len() * 4)
+            let mut sz = 0;
+            for c in self.data.chars() {
+                target.write_all(&(c as u32).to_be_bytes()[..])?;
+                sz += 4;
+            }
+            Ok(sz)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-- 
2.43.0


From ff51227bf8e55914f83811b083e4d35598c8645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 13/78] fix: accept empty segments of constructed strings, and
 reject BIT STRING segments without the unused-bits octet

---
 src/ber/appendable.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index c3cdd54..d4a6a5c 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -28,10 +28,6 @@ where
         return Err(BerError::nom_err_input(&input, InnerError::BerMaxDepth));
     }
 
-    if input.is_empty() {
-        return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
-    }
-
     if header.constructed() {
         let (rem, data) = if header.length.is_definite() {
             ber_get_content(header, input)?
@@ -52,11 +48,9 @@ where
             if !h2.is_universal() || !<T as DynTagged>::accept_tag(h2.tag()) {
                 return Err(BerError::nom_err_input(&data2, InnerError::InvalidTag));
             }
-            // Empty segments are sometimes allowed (for ex: OctetStrings). Just skip recursion if empty
-            if !data2.is_empty() {
-                let (_, mut part_v) = parse_ber_segmented(&h2, data2, recursion_limit - 1)?;
-                v.append(&mut part_v);
-            }
+            // Empty segments are sometimes allowed (for ex: OctetStrings). This is checked by the type
+            let (_, mut part_v) = parse_ber_segmented(&h2, data2, recursion_limit - 1)?;
+            v.append(&mut part_v);
         }
         Ok((rem, v))
     } else {
-- 
2.43.0


From b2581919e353dfaecd384a5bacb39673d28325d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 14/78] fix: DerParser for BitString must check that unused
 bits are zero

---
 src/asn1_types/bitstring.rs | 41 ++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index f7e93f6..206b54d 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -136,6 +136,10 @@ impl<'i> DerParser<'i> for BitString {
         // Encoding shall be primitive (X.690: 10.2)
         header.assert_primitive_input(&input).map_err(Err::Error)?;
 
+        // Check that padding bits are all 0 (X.690 section 11.2.1)
+        check_der_unused_bits(input.as_bytes2())
+            .map_err(|e| BerError::nom_err_input(&input, e.into()))?;
+
         <BitString>::from_ber_content(header, input)
     }
 }
@@ -145,27 +149,30 @@ impl CheckDerConstraints for BitString {
         // X.690 section 10.2
         any.header.assert_primitive()?;
         // Check that padding bits are all 0 (X.690 section 11.2.1)
-        let s = any.data.as_bytes2();
-        match s.len() {
-            0 => Err(Error::InvalidLength),
-            1 => {
-                // X.690 section 11.2.2 Note 2
-                if s[0] == 0 {
-                    Ok(())
-                } else {
-                    Err(Error::InvalidLength)
-                }
-            }
-            len => {
-                let unused_bits = s[0];
-                let last_byte = s[len - 1];
-                if last_byte.trailing_zeros() < unused_bits as u32 {
-                    return Err(Error::DerConstraintFailed(DerConstraint::UnusedBitsNotZero));
-                }
+        check_der_unused_bits(any.data.as_bytes2())
+    }
+}
 
+fn check_der_unused_bits(s: &[u8]) -> Result<()> {
+    match s.len() {
+        0 => Err(Error::InvalidLength),
+        1 => {
+            // X.690 section 11.2.2 Note 2
+            if s[0] == 0 {
                 Ok(())
+            } else {
+                Err(Error::InvalidLength)
             }
         }
+        len => {
+            let unused_bits = s[0];
+            let last_byte = s[len - 1];
+            if last_byte.trailing_zeros() < unused_bits as u32 {
+                return Err(Error::DerConstraintFailed(DerConstraint::UnusedBitsNotZero));
+            }
+
+            Ok(())
+        }
     }
 }
 
-- 
2.43.0


From 7e09851ccc3f61f0a2cadfc8ee0f640321eb7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 15/78] fix: encode the unused bits of a BIT STRING as zero,
 and its bits from the first octet

---
 src/asn1_types/bitstring.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 206b54d..aee39bd 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -201,7 +201,11 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let data = self.as_raw_slice();
+            // bits must start on the first octet, and unused bits shall be zero (X.690 section 11.2.1)
+            let mut bitvec = self.bitvec.clone();
+            bitvec.force_align();
+            bitvec.set_uninitialized(false);
+            let data = bitvec.as_raw_slice();
             // ignored bits
             let ignored = (8 * data.len()) - self.len();
             target.write_all(&[ignored as u8])?;
-- 
2.43.0


From eec7ac84f8630eec48b6de2c419326a811b6cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 16/78] fix: BitString can be built from an empty slice or an
 unaligned bit slice

---
 src/asn1_types/bitstring.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index aee39bd..1b94f27 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -26,7 +26,7 @@ impl BitString {
     pub fn new(unused_bits: u8, s: &[u8]) -> Self {
         let unused_bits = usize::from(unused_bits);
         let mut bitvec = BitVec::from_slice(s);
-        assert!(unused_bits < 8 && unused_bits < bitvec.len());
+        assert!(unused_bits < 8 && unused_bits <= bitvec.len());
         bitvec.truncate(bitvec.len() - unused_bits);
 
         BitString { bitvec }
@@ -78,7 +78,9 @@ impl_tryfrom_any!(BitString);
 
 impl From<&BitSlice<u8, Msb0>> for BitString {
     fn from(slice: &BitSlice<u8, Msb0>) -> Self {
-        let bitvec = BitVec::from_bitslice(slice);
+        let mut bitvec = BitVec::from_bitslice(slice);
+        // copied bits keep their offset in the first octet
+        bitvec.force_align();
         Self { bitvec }
     }
 }
-- 
2.43.0


From a148961ca47cdf11fb56bd3713864a4b075ba738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 17/78] fix: only the last segment of a constructed BIT STRING
 can have unused bits

---
 src/asn1_types/bitstring.rs | 5 +++++
 src/ber/appendable.rs       | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 1b94f27..0f15772 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -185,6 +185,11 @@ impl Tagged for BitString {
 }
 
 impl Appendable for BitString {
+    /// Each segment except the last shall contain a multiple of eight bits (X.690: 8.6.4)
+    fn can_append(&self) -> bool {
+        self.bitvec.len() % 8 == 0
+    }
+
     fn append(&mut self, other: &mut Self) {
         self.bitvec.append(&mut other.bitvec);
     }
diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index d4a6a5c..55fff97 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -7,6 +7,11 @@ use crate::{
 use super::ber_get_content;
 
 pub trait Appendable {
+    /// Return true if another segment can follow this data
+    fn can_append(&self) -> bool {
+        true
+    }
+
     fn append(&mut self, other: &mut Self);
 }
 
@@ -49,6 +54,9 @@ where
                 return Err(BerError::nom_err_input(&data2, InnerError::InvalidTag));
             }
             // Empty segments are sometimes allowed (for ex: OctetStrings). This is checked by the type
+            if !v.can_append() {
+                return Err(BerError::nom_err_input(&data2, InnerError::InvalidLength));
+            }
             let (_, mut part_v) = parse_ber_segmented(&h2, data2, recursion_limit - 1)?;
             v.append(&mut part_v);
         }
-- 
2.43.0


From 2f913a83f5e842f36e943b07e9aa42da9960a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 18/78] fix: SEQUENCE and SET decoders must reject primitive
 objects

---
 src/asn1_types/sequence/sequence_of.rs |  3 +++
 src/asn1_types/sequence/tuple.rs       | 12 ++++++++++--
 src/asn1_types/sequence/vec.rs         |  3 +++
 src/asn1_types/set/set_of.rs           |  3 +++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/sequence/sequence_of.rs b/src/asn1_types/sequence/sequence_of.rs
index 6814286..a210858 100644
--- a/src/asn1_types/sequence/sequence_of.rs
+++ b/src/asn1_types/sequence/sequence_of.rs
@@ -185,6 +185,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/sequence/tuple.rs b/src/asn1_types/sequence/tuple.rs
index f6f6b35..e3db681 100644
--- a/src/asn1_types/sequence/tuple.rs
+++ b/src/asn1_types/sequence/tuple.rs
@@ -16,9 +16,13 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_ber_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                // Encoding shall be constructed (X.690: 8.9.1)
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(|e| nom::Err::Error(e.into()))?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_ber(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
@@ -35,9 +39,13 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_der_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                // Encoding shall be constructed (X.690: 8.9.1)
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(|e| nom::Err::Error(e.into()))?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_der(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
diff --git a/src/asn1_types/sequence/vec.rs b/src/asn1_types/sequence/vec.rs
index 1a67883..095d011 100644
--- a/src/asn1_types/sequence/vec.rs
+++ b/src/asn1_types/sequence/vec.rs
@@ -166,6 +166,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let v = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 396fc87..c4375ef 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -187,6 +187,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SetIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
-- 
2.43.0


From 135883d923d7b84022bc1dd54660d968a182d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 19/78] fix: TaggedParser must reject primitive objects for
 explicit tags

---
 src/asn1_types/tagged/explicit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 69cff8b..dd90602 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -300,6 +300,9 @@ where
     fn from_ber(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_ber(bytes).map_err(Err::convert)?;
         let header = any.header;
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_ber(any.data.as_bytes2())?;
         let tagged = TaggedParser {
             header,
@@ -319,6 +322,9 @@ where
     fn from_der(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_der(bytes).map_err(Err::convert)?;
         let header = any.header;
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_der(any.data.as_bytes2())?;
         let tagged = TaggedParser {
             header,
-- 
2.43.0


From 508a56240d783ce2c9bd8d77b301facbc965b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 20/78] fix: derived SEQUENCE and SET decoders must reject
 primitive objects

---
 derive/src/container.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index e78c045..ac820e2 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -185,6 +185,7 @@ impl Container {
             quote! {
                 use asn1_rs::nom::*;
                 any.tag().assert_eq(Self::TAG)?;
+                any.header.assert_constructed()?;
 
                 // no need to parse sequence, we already have content
                 let i = any.data.as_bytes2();
@@ -481,6 +482,7 @@ impl Container {
             quote! {
                 let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
                 any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                any.header.assert_constructed().map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                 let i = any.data.as_bytes2();
                 //
                 #parse_content
-- 
2.43.0


From 7a929f17bf3a5e31eb72d0d295f515bd4ae4ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 21/78] fix: from_der of derived aliases must check DER
 constraints

---
 derive/src/container.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index ac820e2..8307658 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -474,6 +474,7 @@ impl Container {
                 quote! {
                     let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
                     any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                    <Self as asn1_rs::CheckDerConstraints>::check_constraints(&any).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                     let res = TryFrom::try_from(any)?;
                     Ok((rem,Self(res)))
                 }
-- 
2.43.0


From 11de016f31799bdde448e849c7b16d7e8ed764d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 22/78] fix: optional objects with indefinite length are not
 incomplete

---
 src/asn1_types/optional.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 49cb61a..63bf683 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -70,9 +70,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_ber_content(header, data).map_err(Err::convert)?;
+        // note: `input` is already limited to the object content
+        let (rem, obj) = T::from_ber_content(header, input).map_err(Err::convert)?;
         Ok((rem, Some(obj)))
     }
 }
@@ -114,9 +113,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_der_content(header, data).map_err(Err::convert)?;
+        // note: `input` is already limited to the object content
+        let (rem, obj) = T::from_der_content(header, input).map_err(Err::convert)?;
         Ok((rem, Some(obj)))
     }
 }
-- 
2.43.0


From 67213c71885f7e6be57426807b47a9838a8c1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:11 +0000
Subject: [PATCH 23/78] fix: infinite recursion in the tag of an optional value

---
 src/asn1_types/optional.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 63bf683..d434cdc 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -154,11 +154,24 @@ impl<T> DynTagged for Option<T>
 where
     T: DynTagged,
 {
+    fn class(&self) -> Class {
+        match self {
+            Some(t) => t.class(),
+            None => Class::Universal,
+        }
+    }
+
+    fn constructed(&self) -> bool {
+        match self {
+            Some(t) => t.constructed(),
+            None => false,
+        }
+    }
+
     fn tag(&self) -> Tag {
-        if self.is_some() {
-            self.tag()
-        } else {
-            Tag(0)
+        match self {
+            Some(t) => t.tag(),
+            None => Tag(0),
         }
     }
 
-- 
2.43.0


From 742c238548fb62b26b03f3f02a25aa410f3f0461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 24/78] fix: length octets count of objects of 64 KiB and more

---
 src/to_ber.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index fb6482b..3840fa8 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -172,10 +172,11 @@ pub fn ber_length_length(length: Length) -> Result<usize, InnerError> {
         Length::Indefinite => Ok(1),
         Length::Definite(l) => match l {
             0..=0x7f => Ok(1),
-            0x80..=0xff => Ok(2),
-            0x100..=0xffff => Ok(3),
-            0x1_0000..=0xffff_ffff => Ok(4),
-            _ => Err(InnerError::InvalidLength),
+            // long form: one octet for the number of length octets, followed by the length
+            _ => {
+                let bits = (usize::BITS - l.leading_zeros()) as usize;
+                Ok(1 + (bits + 7) / 8)
+            }
         },
     }
 }
-- 
2.43.0


From 18034f1d0f7d770448eeac70b5157d27c747aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 25/78] fix: absent optional values have no header and no
 length, also when tagged or encoded by reference

---
 src/asn1_types/optional.rs | 78 ++++++++++++++++++++++++++++++++++++++
 src/to_ber.rs              | 31 +++++++++++++++
 src/to_der.rs              | 31 +++++++++++++++
 3 files changed, 140 insertions(+)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index d434cdc..56f209c 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -208,12 +208,51 @@ const _: () = {
             (self.class(), self.constructed(), self.tag())
         }
 
+        fn ber_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.ber_total_len(),
+                // absent values are not encoded (not even a header)
+                None => Length::Definite(0),
+            }
+        }
+
+        fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_write_header(target),
+                None => Ok(0),
+            }
+        }
+
         fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.ber_encode(target),
                 None => Ok(0),
             }
         }
+
+        fn ber_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn ber_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 
     impl<T> ToDer for Option<T>
@@ -240,12 +279,51 @@ const _: () = {
             (self.class(), self.constructed(), self.tag())
         }
 
+        fn der_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.der_total_len(),
+                // absent values are not encoded (not even a header)
+                None => Length::Definite(0),
+            }
+        }
+
+        fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_write_header(target),
+                None => Ok(0),
+            }
+        }
+
         fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.der_encode(target),
                 None => Ok(0),
             }
         }
+
+        fn der_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn der_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 };
 
diff --git a/src/to_ber.rs b/src/to_ber.rs
index 3840fa8..615c7c5 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -143,6 +143,37 @@ where
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).ber_write_content(target)
     }
+
+    // forward provided methods: `T` can override them
+    fn ber_total_len(&self) -> Length {
+        (*self).ber_total_len()
+    }
+
+    fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_write_header(target)
+    }
+
+    fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_encode(target)
+    }
+
+    fn ber_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn ber_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- helper functions
diff --git a/src/to_der.rs b/src/to_der.rs
index 1000391..6c78392 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -177,6 +177,37 @@ where
     fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).der_write_content(target)
     }
+
+    // forward provided methods: `T` can override them
+    fn der_total_len(&self) -> Length {
+        (*self).der_total_len()
+    }
+
+    fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_write_header(target)
+    }
+
+    fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_encode(target)
+    }
+
+    fn der_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn der_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- Macros
-- 
2.43.0


From 193539a1f3780449c3ae15b68783020cfc10974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:13 +0000
Subject: [PATCH 26/78] fix: length of tagged fields of derived types (implicit
 header length, absent optional fields)

---
 derive/src/container.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 8307658..40e394f 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -530,9 +530,11 @@ impl Container {
                     // TAGGED EXPLICIT: add length required to encode tag header
                     let tag = u32::from(tag);
                     quote! {
-                        #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#total_len()
+                        #acc + match #bi.#total_len() {
+                            // absent optional field: nothing is written
+                            asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                            length => asn1_rs::ber_total_length(asn1_rs::Tag(#tag), length),
+                        }
                     }
                 }
                 Some((Asn1TagKind::Implicit, _class, tag)) => {
@@ -541,9 +543,11 @@ impl Container {
                     // (implicit tag, object tag) is long and the other is not
                     let tag = u32::from(tag);
                     quote! {
-                        #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#content_len()
+                        #acc + match #bi.#total_len() {
+                            // absent optional field: nothing is written
+                            asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                            _ => asn1_rs::ber_total_length(asn1_rs::Tag(#tag), #bi.#content_len()),
+                        }
                     }
                 }
                 None => quote! {
-- 
2.43.0


From 4b60c63b6828213773cb0931c5c9120d5c761f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 27/78] fix: objects containing indefinite-length sequences
 have a definite length

---
 src/to_ber/constructed_indefinite.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/to_ber/constructed_indefinite.rs b/src/to_ber/constructed_indefinite.rs
index 14aeb52..56d7b23 100644
--- a/src/to_ber/constructed_indefinite.rs
+++ b/src/to_ber/constructed_indefinite.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use crate::{Class, DynTagged, Length, SerializeError, SerializeResult, Tag};
 
-use super::{BerEncoder, ToBer};
+use super::{ber_header_length, ber_length_constructed_items, BerEncoder, ToBer};
 
 /// Encoder for constructed objects, with *Indefinite* length
 #[allow(missing_debug_implementations)]
@@ -65,6 +65,14 @@ where
         Length::Indefinite
     }
 
+    fn ber_total_len(&self) -> Length {
+        // only the content is written with an indefinite length: the size of the encoded object is
+        // known, so it can be part of an object with definite length
+        let header_len = ber_header_length(self.tag(), Length::Indefinite).unwrap_or(0);
+        // include end-of-content
+        ber_length_constructed_items(self.0.iter()) + (header_len + 2)
+    }
+
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         let sz = self.0.iter().try_fold(0, |acc, t| {
             let sz = t.ber_encode(target)?;
-- 
2.43.0


From 509f1d79939fe08fd6abaf05c271fdbb9b238090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 28/78] fix: int! macro must encode zero and values with the
 high bit set

---
 impl/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index 91e2b07..62c99fd 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -118,7 +118,11 @@ fn impl_encode_int(lit: LitInt) -> Result<TokenStream, Error> {
     let value = lit.base10_parse::<u64>()?;
 
     let bytes = value.to_be_bytes();
-    let v: Vec<_> = bytes.iter().skip_while(|&c| *c == 0).collect();
+    let mut v: Vec<u8> = bytes.iter().copied().skip_while(|c| *c == 0).collect();
+    // value is positive, and has at least one content octet
+    if v.first().map_or(true, |c| c & 0x80 != 0) {
+        v.insert(0, 0);
+    }
 
     let mut s = String::with_capacity(2 + 6 * v.len());
     s.push('[');
-- 
2.43.0


From 44c913a449c97cc3c9831e48b18db025911bb305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 29/78] fix: Integer::from_const_array of an empty array must
 not overflow

---
 src/asn1_types/integer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index 9a747e2..495cfa4 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -431,7 +431,7 @@ impl<'a> Integer<'a> {
         else {
             let mut idx = 0;
 
-            while idx < b.len() - 1 {
+            while idx + 1 < b.len() {
                 if b[idx] == 0 && b[idx + 1] < 0x80 {
                     idx += 1;
                     continue;
@@ -440,7 +440,12 @@ impl<'a> Integer<'a> {
             }
 
             Integer {
-                data: Cow::Owned(b[idx..].to_vec()),
+                // a value has at least one content octet
+                data: if b.is_empty() {
+                    Cow::Borrowed(&[0])
+                } else {
+                    Cow::Owned(b[idx..].to_vec())
+                },
             }
         }
     }
-- 
2.43.0


From fb5a09a3c4c0dd56d06c9c07d896ba12557053bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 30/78] fix: to_der_len must include the header, as documented

---
 src/to_der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/to_der.rs b/src/to_der.rs
index 6c78392..aefb195 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -145,7 +145,7 @@ pub trait ToDer {
     // Since we are using DER, length cannot be Indefinite
     #[deprecated(since = "0.8.0", note = "Use `der_total_len()` instead.")]
     fn to_der_len(&self) -> crate::Result<usize> {
-        match self.der_content_len() {
+        match self.der_total_len() {
             Length::Definite(sz) => Ok(sz),
             Length::Indefinite => Err(crate::Error::IndefiniteLengthUnexpected),
         }
-- 
2.43.0


From aeb9820a39d1eea46c9e915c44118143e6907889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 31/78] fix: decode the long form of REAL exponents

---
 src/asn1_types/real.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index f28c756..46126bf 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -213,12 +213,16 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         // binary encoding (X.690 section 8.5.6)
         // format of exponent
         let (n, rem) = match first & 0x03 {
-            4 => {
-                let (b, rem) = rem
-                    .split_first()
-                    .ok_or_else(|| Error::Incomplete(Needed::new(1)))?;
-                (*b as usize, rem)
-            }
+            // long form: next octet is the number of exponent octets
+            3 => match rem.split_first() {
+                Some((b, rem)) if *b != 0 => (*b as usize, rem),
+                _ => {
+                    return Err(InnerError::invalid_value(
+                        header.tag,
+                        "Invalid float value(exponent)",
+                    ))
+                }
+            },
             b => (b as usize + 1, rem),
         };
         if n >= rem.len() {
@@ -227,7 +231,7 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
                 "Invalid float value(exponent)",
             ));
         }
-        // n cannot be 0 (see the +1 above)
+        // n cannot be 0 (see above)
         let (eo, rem) = rem.split_at(n);
         // so 'eo' cannot be empty
         let mut e = if eo[0] & 0x80 != 0 { -1 } else { 0 };
-- 
2.43.0


From bc15032272acfb3d107729ba8b659eb323b0a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 32/78] fix: REAL exponents in base 8 or 16 must not overflow

---
 src/asn1_types/real.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 46126bf..7674312 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -260,13 +260,14 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         };
         let e = match b {
             // base 2
-            0 => e,
+            0 => Some(e),
             // base 8
-            1 => e * 3,
+            1 => e.checked_mul(3),
             // base 16
-            2 => e * 4,
+            2 => e.checked_mul(4),
             _ => return Err(InnerError::invalid_value(header.tag, "Illegal REAL base")),
-        };
+        }
+        .ok_or_else(|| InnerError::invalid_value(header.tag, "Exponent too large (REAL)"))?;
         if rem.len() > 8 {
             return Err(InnerError::invalid_value(
                 header.tag,
-- 
2.43.0


From 544e2edd812b5ccba295f5f84dfcef30917e2a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 33/78] fix: REAL mantissa is unsigned

---
 src/asn1_types/real.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 7674312..5f47c98 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -274,20 +274,25 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
                 "Mantissa too large (REAL)",
             ));
         }
-        let mut p = 0;
+        // mantissa is an unsigned value (up to 8 octets)
+        let mut p = 0_u64;
         for b in rem {
-            p = (p << 8) | (*b as i64);
+            p = (p << 8) | u64::from(*b);
         }
         // sign bit
-        let p = if first & 0x40 != 0 { -p } else { p };
+        let p = if first & 0x40 != 0 {
+            -(p as f64)
+        } else {
+            p as f64
+        };
         // scale bits
         let sf = (first >> 2) & 0x03;
         let p = match sf {
-            0 => p as f64,
+            0 => p,
             sf => {
                 // 2^sf: cannot overflow, sf is between 0 and 3
                 let scale = 2_f64.powi(sf as _);
-                (p as f64) * scale
+                p * scale
             }
         };
         Ok(Real::Binary {
-- 
2.43.0


From f20d2ed9c810092c848094467ab6c1ae0ed2355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:44 +0000
Subject: [PATCH 34/78] fix: values of REAL objects with large exponents

---
 src/asn1_types/real.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 5f47c98..e444f15 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -136,9 +136,17 @@ impl Real {
                 exponent,
                 ..
             } => {
-                let f = mantissa;
-                let exp = (*base as f64).powi(*exponent);
-                f * exp
+                let base = *base as f64;
+                let mut f = *mantissa;
+                let mut exponent = *exponent;
+                // scale in steps: `base^exponent` alone can be out of range while the value is not
+                const STEP: i32 = 300;
+                while f != 0.0 && f.is_finite() && exponent != 0 {
+                    let e = exponent.clamp(-STEP, STEP);
+                    f *= base.powi(e);
+                    exponent -= e;
+                }
+                f
             }
             Real::Zero => 0.0_f64,
             Real::NaN => f64::NAN,
-- 
2.43.0


From 30d931ec258c8154e3805ecbce00f09248208ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 35/78] fix: REAL exponents are signed when encoded

---
 src/asn1_types/real.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index e444f15..e596928 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -441,10 +441,11 @@ const _: () = {
                     }
                     first |= sf << 2;
                     // exponent length and bytes
-                    let len_e = match e.abs() {
-                        0..=0xff => 1,
-                        0x100..=0xffff => 2,
-                        0x1_0000..=0xff_ffff => 3,
+                    // (exponent is signed: first bit is the sign)
+                    let len_e = match e {
+                        -0x80..=0x7f => 1,
+                        -0x8000..=0x7fff => 2,
+                        -0x80_0000..=0x7f_ffff => 3,
                         // e is an `i32` so it can't be longer than 4 bytes
                         // use 4, so `first` is ORed with 3
                         _ => 4,
-- 
2.43.0


From 93cc2827db130ff87a8bcfee72569669c22f0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:35 +0000
Subject: [PATCH 36/78] fix: encode all finite REAL values (base 8 and 16
 exponents, zero, large and tiny mantissas)

---
 src/asn1_types/real.rs | 62 ++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index e596928..a6c8bbe 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -404,28 +404,33 @@ const _: () = {
                     // choose encoding base
                     let enc_base = *_enc_base;
                     let (ms, mut m, enc_base, mut e) =
-                        drop_floating_point(*mantissa, enc_base, *exponent);
-                    assert!(m != 0);
+                        drop_floating_point(*mantissa, enc_base, *exponent).ok_or_else(|| {
+                            Self::TAG.invalid_value("Invalid mantissa, exponent or encoding base")
+                        })?;
+                    if m == 0 {
+                        // zero has no content octets (X.690: 8.5.2)
+                        return Ok(0);
+                    }
                     if ms < 0 {
                         first |= 0x40
                     };
                     // exponent & mantissa normalization
                     match enc_base {
                         2 => {
-                            while m & 0x1 == 0 {
+                            while m & 0x1 == 0 && e < i32::MAX {
                                 m >>= 1;
                                 e += 1;
                             }
                         }
                         8 => {
-                            while m & 0x7 == 0 {
+                            while m & 0x7 == 0 && e < i32::MAX {
                                 m >>= 3;
                                 e += 1;
                             }
                             first |= 0x10;
                         }
                         _ /* 16 */ => {
-                            while m & 0xf == 0 {
+                            while m & 0xf == 0 && e < i32::MAX {
                                 m >>= 4;
                                 e += 1;
                             }
@@ -435,7 +440,7 @@ const _: () = {
                     // scale factor
                     // XXX in DER, sf is always 0 (11.3.1)
                     let mut sf = 0;
-                    while m & 0x1 == 0 && sf < 4 {
+                    while m & 0x1 == 0 && sf < 3 {
                         m >>= 1;
                         sf += 1;
                     }
@@ -517,29 +522,38 @@ impl From<Real> for f64 {
 }
 
 #[cfg(feature = "std")]
-fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
+fn drop_floating_point(m: f64, b: u8, e: i32) -> Option<(i8, u64, u8, i32)> {
+    if !m.is_finite() {
+        return None;
+    }
     let ms = if m.is_sign_positive() { 1 } else { -1 };
-    let es = if e.is_positive() { 1 } else { -1 };
     let mut m = m.abs();
     let mut e = e;
-    //
-    if b == 8 {
-        m *= 2_f64.powi((e.abs() / 3) * es);
-        e = (e.abs() / 3) * es;
-    } else if b == 16 {
-        m *= 2_f64.powi((e.abs() / 4) * es);
-        e = (e.abs() / 4) * es;
-    }
-    //
-    while m.abs() > f64::EPSILON {
-        if m.fract() != 0.0 {
-            m *= b as f64;
-            e -= 1;
-        } else {
-            break;
+    // `e` is an exponent of 2: convert it to an exponent of `b`
+    // (the remaining power of 2 is moved to the mantissa)
+    match b {
+        2 => (),
+        8 => {
+            m *= 2_f64.powi(e % 3);
+            e /= 3;
         }
+        16 => {
+            m *= 2_f64.powi(e % 4);
+            e /= 4;
+        }
+        _ => return None,
+    }
+    // remove fractional part
+    while m.fract() != 0.0 {
+        m *= b as f64;
+        e = e.checked_sub(1)?;
+    }
+    // mantissa must fit in an `u64` (divisions are exact: there are more than 53 bits)
+    while m >= 18_446_744_073_709_551_616.0 {
+        m /= b as f64;
+        e = e.checked_add(1)?;
     }
-    (ms, m as u64, b, e)
+    Some((ms, m as u64, b, e))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5b4c5cea4276008bcf9baa755599c9b8a08a8ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 37/78] fix: keep the sign of time zone offsets of less than
 one hour

---
 src/asn1_types/generalizedtime.rs |  5 +++--
 src/asn1_types/utctime.rs         |  5 +++--
 src/datetime.rs                   | 13 +++++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 949c6f8..8d4db8d 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -147,7 +147,7 @@ impl GeneralizedTime {
             [b'-', h1, h2, m1, m2] => {
                 let hh = decode_decimal(Self::TAG, *h1, *h2)?;
                 let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                ASN1TimeZone::negative_offset(hh, mm)
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -267,7 +267,8 @@ impl fmt::Display for GeneralizedTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || mm < 0 { '-' } else { '+' };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{}{:02}{:02}",
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index e45b9b3..db3f0f6 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -63,7 +63,7 @@ impl UtcTime {
             [b'-', h1, h2, m1, m2] => {
                 let hh = decode_decimal(Self::TAG, *h1, *h2)?;
                 let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                ASN1TimeZone::negative_offset(hh, mm)
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -200,7 +200,8 @@ impl fmt::Display for UtcTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || mm < 0 { '-' } else { '+' };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{:02}{:02}",
diff --git a/src/datetime.rs b/src/datetime.rs
index 03f5a1d..3e8585c 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -15,9 +15,22 @@ pub enum ASN1TimeZone {
     /// Local zone, with offset to coordinated universal time
     ///
     /// `(offset_hour, offset_minute)`
+    ///
+    /// For negative offsets of less than one hour, the sign is the sign of `offset_minute`.
     Offset(i8, i8),
 }
 
+impl ASN1TimeZone {
+    /// Build the offset with a negative sign (`-hhmm`)
+    pub(crate) const fn negative_offset(hh: u8, mm: u8) -> Self {
+        if hh == 0 {
+            ASN1TimeZone::Offset(0, -(mm as i8))
+        } else {
+            ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+        }
+    }
+}
+
 #[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Ord)]
 pub struct ASN1DateTime {
     pub year: u32,
-- 
2.43.0


From 5899b287a84c15f3b0eea108fd5195f0f5077c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 38/78] fix: encode the fraction of a GeneralizedTime with its
 leading zeros, and without trailing zeros

---
 src/asn1_types/generalizedtime.rs | 32 +++++++++++++++++--------------
 src/datetime.rs                   |  2 +-
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 8d4db8d..6e4e6ca 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -79,7 +79,7 @@ impl GeneralizedTime {
                 let mut fsecond = 0;
                 let mut rem = rem;
                 let mut digits = 0;
-                for idx in 0..=4 {
+                for idx in 0..=3 {
                     if rem.is_empty() {
                         if idx == 0 {
                             // dot or comma, but no following digit
@@ -90,14 +90,15 @@ impl GeneralizedTime {
                         digits = idx;
                         break;
                     }
-                    if idx == 4 {
+                    if idx == 3 && rem[0].is_ascii_digit() {
+                        // only milliseconds are supported
                         return Err(
                             Self::TAG.invalid_value("malformed time string (invalid milliseconds)")
                         );
                     }
                     match rem[0] {
                         b'0'..=b'9' => {
-                            // cannot overflow, max 4 digits will be read
+                            // cannot overflow, max 3 digits will be read
                             fsecond = fsecond * 10 + (rem[0] - b'0') as u16;
                         }
                         b'Z' | b'+' | b'-' => {
@@ -252,7 +253,7 @@ impl fmt::Display for GeneralizedTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
         let fsec = match self.0.millisecond {
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
             None => String::new(),
         };
         match dt.tz {
@@ -305,6 +306,17 @@ impl Tagged for GeneralizedTime {
 const _: () = {
     use std::io::Write;
 
+    impl GeneralizedTime {
+        /// Decimal fraction of the seconds (including the point), without trailing zeros: omitted if
+        /// the fraction is 0 (X.690 section 11.7.3)
+        fn fraction(&self) -> String {
+            match self.0.millisecond {
+                None | Some(0) => String::new(),
+                Some(v) => format!(".{v:03}").trim_end_matches('0').to_string(),
+            }
+        }
+    }
+
     impl ToBer for GeneralizedTime {
         type Encoder = Primitive<{ Tag::GeneralizedTime.0 }>;
 
@@ -315,19 +327,11 @@ const _: () = {
             // - (variable) the fractional part, without trailing zeros, with a point "."
             // - 1 for the character Z in DER (X.690 section 11.7.1)
             // data length: 15 + fractional part
-            let num_digits = match self.0.millisecond {
-                None => 0,
-                Some(v) => 1 + v.to_string().len(),
-            };
-
-            Length::Definite(15 + num_digits)
+            Length::Definite(15 + self.fraction().len())
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let fractional = match self.0.millisecond {
-                None => "".to_string(),
-                Some(v) => format!(".{v}"),
-            };
+            let fractional = self.fraction();
             let num_digits = fractional.len();
             write!(
                 target,
diff --git a/src/datetime.rs b/src/datetime.rs
index 3e8585c..be35e57 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -102,7 +102,7 @@ impl fmt::Display for ASN1DateTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let fractional = match self.millisecond {
             None => "".to_string(),
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
         };
         write!(
             f,
-- 
2.43.0


From 7843a54aadb5d0d9e611184f705b7f521c3caa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 39/78] fix: reject GeneralizedTime with a decimal point but no
 digits

---
 src/asn1_types/generalizedtime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 6e4e6ca..a80dd4d 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -101,7 +101,7 @@ impl GeneralizedTime {
                             // cannot overflow, max 3 digits will be read
                             fsecond = fsecond * 10 + (rem[0] - b'0') as u16;
                         }
-                        b'Z' | b'+' | b'-' => {
+                        b'Z' | b'+' | b'-' if idx > 0 => {
                             digits = idx;
                             break;
                         }
-- 
2.43.0


From 4a2fa6c50578d96c3dfbb415144146d70b7e5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:58 +0000
Subject: [PATCH 40/78] fix: encode times with an offset as the same instant in
 UTC

---
 src/asn1_types/generalizedtime.rs | 10 ++----
 src/asn1_types/utctime.rs         | 19 ++++++++++-
 src/datetime.rs                   | 52 +++++++++++++++++++++++++++++++
 3 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index a80dd4d..fbe8262 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -333,16 +333,12 @@ const _: () = {
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             let fractional = self.fraction();
             let num_digits = fractional.len();
+            // X.690 section 11.7.1: the time is encoded in UTC
+            let dt = self.0.to_utc()?;
             write!(
                 target,
                 "{:04}{:02}{:02}{:02}{:02}{:02}{}Z",
-                self.0.year,
-                self.0.month,
-                self.0.day,
-                self.0.hour,
-                self.0.minute,
-                self.0.second,
-                fractional,
+                dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fractional,
             )?;
             // write_fmt returns (), see above for length value
             Ok(15 + num_digits)
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index db3f0f6..fc0b812 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -241,10 +241,27 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            // X.690 section 11.8.1: the time is encoded in UTC
+            let mut dt = self.0.clone();
+            // the date can change to another year, or century
+            dt.year = match dt.year {
+                0..=49 => dt.year + 2000,
+                50..=99 => dt.year + 1900,
+                _ => return Err(Error::InvalidDateTime.into()),
+            };
+            let dt = dt.to_utc()?;
+            if !(1950..=2049).contains(&dt.year) {
+                return Err(Error::InvalidDateTime.into());
+            }
             write!(
                 target,
                 "{:02}{:02}{:02}{:02}{:02}{:02}Z",
-                self.0.year, self.0.month, self.0.day, self.0.hour, self.0.minute, self.0.second,
+                dt.year % 100,
+                dt.month,
+                dt.day,
+                dt.hour,
+                dt.minute,
+                dt.second,
             )?;
             // write_fmt returns (), see above for length value
             Ok(13)
diff --git a/src/datetime.rs b/src/datetime.rs
index be35e57..500de25 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -1,3 +1,5 @@
+#[cfg(feature = "std")]
+use crate::Error;
 use crate::{Result, Tag};
 use alloc::format;
 #[cfg(not(feature = "std"))]
@@ -67,6 +69,56 @@ impl ASN1DateTime {
         }
     }
 
+    /// Return the same instant in coordinated universal time
+    ///
+    /// Local times without offset are returned unchanged.
+    #[cfg(feature = "std")]
+    pub(crate) fn to_utc(&self) -> Result<Self> {
+        use core::convert::TryFrom;
+
+        const fn days_in_month(year: i64, month: u8) -> u8 {
+            match month {
+                2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
+                2 => 28,
+                4 | 6 | 9 | 11 => 30,
+                _ => 31,
+            }
+        }
+
+        let mut dt = self.clone();
+        let offset = match self.tz {
+            // if the offset is negative, both parts are
+            ASN1TimeZone::Offset(h, m) if h < 0 => i64::from(h) * 60 - i64::from(m).abs(),
+            ASN1TimeZone::Offset(h, m) => i64::from(h) * 60 + i64::from(m),
+            _ => 0,
+        };
+        if offset == 0 {
+            return Ok(dt);
+        }
+        let (mut year, mut month) = (i64::from(self.year), self.month);
+        if month == 0 || month > 12 {
+            return Err(Error::InvalidDateTime);
+        }
+        let minutes = i64::from(self.hour) * 60 + i64::from(self.minute) - offset;
+        let mut day = i64::from(self.day) + minutes.div_euclid(24 * 60);
+        while day < 1 {
+            (year, month) = if month == 1 { (year - 1, 12) } else { (year, month - 1) };
+            day += i64::from(days_in_month(year, month));
+        }
+        while day > i64::from(days_in_month(year, month)) {
+            day -= i64::from(days_in_month(year, month));
+            (year, month) = if month == 12 { (year + 1, 1) } else { (year, month + 1) };
+        }
+        let minutes = minutes.rem_euclid(24 * 60);
+        dt.year = u32::try_from(year).map_err(|_| Error::InvalidDateTime)?;
+        dt.month = month;
+        dt.day = day as u8;
+        dt.hour = (minutes / 60) as u8;
+        dt.minute = (minutes % 60) as u8;
+        dt.tz = ASN1TimeZone::Z;
+        Ok(dt)
+    }
+
     #[cfg(feature = "datetime")]
     fn to_time_datetime(
         &self,
-- 
2.43.0


From 1e191320a3059c9db746b601658e1d21a08fb7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 41/78] fix: return an error when encoding times with
 components out of range

---
 src/datetime.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 500de25..57e6da5 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -71,11 +71,10 @@ impl ASN1DateTime {
 
     /// Return the same instant in coordinated universal time
     ///
-    /// Local times without offset are returned unchanged.
+    /// Local times without offset are returned unchanged. Returns an error if the value has
+    /// components that are out of range.
     #[cfg(feature = "std")]
     pub(crate) fn to_utc(&self) -> Result<Self> {
-        use core::convert::TryFrom;
-
         const fn days_in_month(year: i64, month: u8) -> u8 {
             match month {
                 2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
@@ -85,6 +84,17 @@ impl ASN1DateTime {
             }
         }
 
+        // same checks as when decoding
+        if self.year > 9999
+            || self.month > 12
+            || self.day > 31
+            || self.hour > 23
+            || self.minute > 59
+            || self.second > 59
+            || self.millisecond > Some(999)
+        {
+            return Err(Error::InvalidDateTime);
+        }
         let mut dt = self.clone();
         let offset = match self.tz {
             // if the offset is negative, both parts are
@@ -96,7 +106,7 @@ impl ASN1DateTime {
             return Ok(dt);
         }
         let (mut year, mut month) = (i64::from(self.year), self.month);
-        if month == 0 || month > 12 {
+        if month == 0 {
             return Err(Error::InvalidDateTime);
         }
         let minutes = i64::from(self.hour) * 60 + i64::from(self.minute) - offset;
@@ -110,7 +120,10 @@ impl ASN1DateTime {
             (year, month) = if month == 12 { (year + 1, 1) } else { (year, month + 1) };
         }
         let minutes = minutes.rem_euclid(24 * 60);
-        dt.year = u32::try_from(year).map_err(|_| Error::InvalidDateTime)?;
+        dt.year = match year {
+            0..=9999 => year as u32,
+            _ => return Err(Error::InvalidDateTime),
+        };
         dt.month = month;
         dt.day = day as u8;
         dt.hour = (minutes / 60) as u8;
-- 
2.43.0


From a3a66fa3e740358c3f2e0dbb42dee7193a41dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 42/78] fix: encode INTEGER values with the minimal number of
 octets

---
 src/asn1_types/integer.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index 495cfa4..11919a9 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -656,16 +656,31 @@ impl Tagged for Integer<'_> {
 const _: () = {
     use std::io::Write;
 
+    impl Integer<'_> {
+        /// Contents octets, without redundant leading octets (X.690: 8.3.2)
+        fn minimal_octets(&self) -> &[u8] {
+            let mut data: &[u8] = &self.data;
+            while let [0, b, ..] | [0xff, b, ..] = data {
+                if (data[0] ^ *b) & 0x80 != 0 {
+                    break;
+                }
+                data = &data[1..];
+            }
+            data
+        }
+    }
+
     impl ToBer for Integer<'_> {
         type Encoder = Primitive<{ Tag::Integer.0 }>;
 
         fn ber_content_len(&self) -> Length {
-            Length::Definite(self.data.len())
+            Length::Definite(self.minimal_octets().len())
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            target.write_all(&self.data)?;
-            Ok(self.data.len())
+            let data = self.minimal_octets();
+            target.write_all(data)?;
+            Ok(data.len())
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-- 
2.43.0


From 3abe0851e6fc4a36c109a891c8968fb9c152fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 43/78] fix: REAL values built from floats are exact

---
 src/asn1_types/real.rs | 55 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index a6c8bbe..1e6077e 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -1,5 +1,7 @@
 use crate::*;
 use alloc::format;
+#[cfg(not(feature = "std"))]
+use alloc::string::String;
 use nom::Input as _;
 
 mod f32;
@@ -44,18 +46,50 @@ impl Real {
             Self::Zero
         } else {
             let mut e = 0;
-            let mut f = f;
-            while f.fract() != 0.0 {
-                f *= 10.0_f64;
+            let mut m = f;
+            while m.fract() != 0.0 {
+                m *= 10.0_f64;
                 e -= 1;
             }
-            Real::Binary {
-                mantissa: f,
+            let r = Real::Binary {
+                mantissa: m,
                 base: 10,
                 exponent: e,
                 enc_base: 10,
             }
-            .normalize_base10()
+            .normalize_base10();
+            // operations above can be inexact
+            if r.f64() == f {
+                r
+            } else {
+                Real::exact_binary(f)
+            }
+        }
+    }
+
+    /// Exact representation (in base 2) of a finite value
+    fn exact_binary(f: f64) -> Self {
+        let bits = f.to_bits();
+        let fraction = bits & ((1 << 52) - 1);
+        let (m, e) = match ((bits >> 52) & 0x7ff) as i32 {
+            0 => (fraction, -1074),
+            e => (fraction | (1 << 52), e - 1075),
+        };
+        let n = m.trailing_zeros() as i32;
+        let m = (m >> n) as f64;
+        Real::binary(if f < 0.0 { -m } else { m }, 2, e + n)
+    }
+
+    /// Decimal text (X.690: 8.5.8, NR3) of a value in base 10
+    fn decimal(&self) -> String {
+        match self {
+            Real::Binary {
+                mantissa, exponent, ..
+            } => {
+                let sign = if *exponent == 0 { "+" } else { "" };
+                format!("{mantissa}E{sign}{exponent}")
+            }
+            _ => String::new(),
         }
     }
 
@@ -136,6 +170,12 @@ impl Real {
                 exponent,
                 ..
             } => {
+                if *base == 10 {
+                    // powers of 10 are not exact: use the conversion from text
+                    if let Ok(f) = self.decimal().parse() {
+                        return f;
+                    }
+                }
                 let base = *base as f64;
                 let mut f = *mantissa;
                 let mut exponent = *exponent;
@@ -392,8 +432,7 @@ const _: () = {
                 } => {
                     if *base == 10 {
                         // using character form
-                        let sign = if *exponent == 0 { "+" } else { "" };
-                        let s = format!("\x03{mantissa}E{sign}{exponent}");
+                        let s = format!("\x03{}", self.decimal());
                         target.write_all(s.as_bytes())?;
                         return Ok(s.len());
                     }
-- 
2.43.0


From acde42c5d0fd38c761f359ae75aa244c10422765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 44/78] fix: reject names of special values in decimal REAL
 objects

---
 src/asn1_types/real.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 1e6077e..f01fc5e 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -368,6 +368,13 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
     } else {
         // decimal encoding (X.690 section 8.5.7)
         let s = alloc::str::from_utf8(rem)?;
+        if s.contains(|c: char| c.is_alphabetic() && c != 'E' && c != 'e') {
+            // special values ("inf", "nan") have no decimal representation
+            return Err(InnerError::invalid_value(
+                header.tag,
+                "Invalid float string encoding",
+            ));
+        }
         match first & 0x03 {
             0x1 => {
                 // NR1
-- 
2.43.0


From 01bf398c95b969ae03e70dcafb88c4e847bb9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 45/78] fix: decode UTCTime with an offset but without seconds

---
 src/asn1_types/utctime.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index fc0b812..95568e3 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -41,6 +41,7 @@ impl UtcTime {
         }
         // check for seconds
         let (second, rem) = match rem {
+            [b'+' | b'-', ..] => (0, rem),
             [sec1, sec2, rem @ ..] => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
-- 
2.43.0


From bed2a2b3f2b70104b5d6eed9af115f2e4d9a4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 46/78] fix: months and days of times start at 1

---
 src/asn1_types/generalizedtime.rs | 7 ++++++-
 src/asn1_types/utctime.rs         | 7 ++++++-
 src/datetime.rs                   | 7 ++-----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index fbe8262..d6bc2c1 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -51,7 +51,12 @@ impl GeneralizedTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if !(1..=12).contains(&month)
+            || !(1..=31).contains(&day)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             // eprintln!("GeneralizedTime: time checks failed");
             // eprintln!(" month:{}", month);
             // eprintln!(" day:{}", day);
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 95568e3..a1c61ad 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -48,7 +48,12 @@ impl UtcTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if !(1..=12).contains(&month)
+            || !(1..=31).contains(&day)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             return Err(Self::TAG.invalid_value("time components with invalid values"));
         }
         if rem.is_empty() {
diff --git a/src/datetime.rs b/src/datetime.rs
index 57e6da5..661de8b 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -86,8 +86,8 @@ impl ASN1DateTime {
 
         // same checks as when decoding
         if self.year > 9999
-            || self.month > 12
-            || self.day > 31
+            || !(1..=12).contains(&self.month)
+            || !(1..=31).contains(&self.day)
             || self.hour > 23
             || self.minute > 59
             || self.second > 59
@@ -106,9 +106,6 @@ impl ASN1DateTime {
             return Ok(dt);
         }
         let (mut year, mut month) = (i64::from(self.year), self.month);
-        if month == 0 {
-            return Err(Error::InvalidDateTime);
-        }
         let minutes = i64::from(self.hour) * 60 + i64::from(self.minute) - offset;
         let mut day = i64::from(self.day) + minutes.div_euclid(24 * 60);
         while day < 1 {
-- 
2.43.0


From 5ab592b25179d61db423c8223095d313dc29f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:06 +0000
Subject: [PATCH 47/78] fix: decode signed and large NR1 REAL values

---
 src/asn1_types/real.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index f01fc5e..c9d275a 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -378,9 +378,10 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         match first & 0x03 {
             0x1 => {
                 // NR1
-                match s.parse::<u32>() {
-                    Err(_) => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
-                    Ok(v) => Ok(Real::new(v.into())),
+                // (integers only: no decimal mark, no exponent)
+                match s.parse::<f64>() {
+                    Ok(v) if !s.contains(['.', 'E', 'e']) => Ok(Real::new(v)),
+                    _ => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
                 }
             }
             0x2 /* NR2 */ | 0x3 /* NR3 */=> {
-- 
2.43.0


From dd78a5dc3af497981f6e86696a5412354b0b0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 48/78] fix: DER encoding of SetOf and BTreeSet orders the
 components

---
 src/asn1_types/set/btreeset.rs |  6 ++----
 src/asn1_types/set/set_of.rs   |  2 +-
 src/to_der.rs                  | 21 +++++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/set/btreeset.rs b/src/asn1_types/set/btreeset.rs
index abf5084..a8804eb 100644
--- a/src/asn1_types/set/btreeset.rs
+++ b/src/asn1_types/set/btreeset.rs
@@ -154,10 +154,8 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.der_encode(target)?;
-                Ok(acc + sz)
-            })
+            // order of values can be different from the order of their encodings
+            der_write_set_of_items(self.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index c4375ef..77c7230 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -238,7 +238,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.items.der_write_content(target)
+            der_write_set_of_items(self.items.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/to_der.rs b/src/to_der.rs
index aefb195..98be008 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -272,3 +272,24 @@ where
 {
     iter.map(|t| t.der_total_len()).sum()
 }
+
+/// Write the components of a `SET OF`, in ascending order of their encodings (X.690: 11.6)
+pub(crate) fn der_write_set_of_items<'a, T, IT, W>(iter: IT, target: &mut W) -> SerializeResult<usize>
+where
+    T: ToDer + 'a,
+    IT: Iterator<Item = &'a T>,
+    W: Write,
+{
+    let mut items = iter
+        .map(|t| {
+            let mut v = Vec::new();
+            t.der_encode(&mut v)?;
+            Ok(v)
+        })
+        .collect::<SerializeResult<Vec<Vec<u8>>>>()?;
+    items.sort();
+    items.iter().try_fold(0, |acc, v| {
+        target.write_all(v)?;
+        Ok(acc + v.len())
+    })
+}
-- 
2.43.0


From 00f5fe5bfb733226c249bc1c1b2a8e015429f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 49/78] fix: additions of lengths must not overflow

---
 src/length.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/length.rs b/src/length.rs
index 0be23c9..87e40f6 100644
--- a/src/length.rs
+++ b/src/length.rs
@@ -76,7 +76,7 @@ impl ops::Add<Length> for Length {
             Length::Indefinite => self,
             Length::Definite(lhs) => match rhs {
                 Length::Indefinite => rhs,
-                Length::Definite(rhs) => Length::Definite(lhs + rhs),
+                Length::Definite(rhs) => Length::Definite(lhs.saturating_add(rhs)),
             },
         }
     }
@@ -85,7 +85,9 @@ impl ops::Add<Length> for Length {
 impl ops::AddAssign<Length> for Length {
     fn add_assign(&mut self, rhs: Length) {
         match (*self, rhs) {
-            (Length::Definite(lhs), Length::Definite(r)) => *self = Length::Definite(lhs + r),
+            (Length::Definite(lhs), Length::Definite(r)) => {
+                *self = Length::Definite(lhs.saturating_add(r))
+            }
             (Length::Indefinite, _) => (),
             (_, Length::Indefinite) => *self = rhs,
         }
@@ -97,7 +99,7 @@ impl ops::Add<usize> for Length {
 
     fn add(self, rhs: usize) -> Self::Output {
         match self {
-            Length::Definite(lhs) => Length::Definite(lhs + rhs),
+            Length::Definite(lhs) => Length::Definite(lhs.saturating_add(rhs)),
             Length::Indefinite => self,
         }
     }
@@ -108,7 +110,7 @@ impl ops::Add<Length> for usize {
 
     fn add(self, rhs: Length) -> Self::Output {
         match rhs {
-            Length::Definite(l) => Length::Definite(self + l),
+            Length::Definite(l) => Length::Definite(self.saturating_add(l)),
             Length::Indefinite => rhs,
         }
     }
@@ -117,7 +119,7 @@ impl ops::Add<Length> for usize {
 impl ops::AddAssign<usize> for Length {
     fn add_assign(&mut self, rhs: usize) {
         match self {
-            Length::Definite(ref mut lhs) => *lhs += rhs,
+            Length::Definite(ref mut lhs) => *lhs = lhs.saturating_add(rhs),
             Length::Indefinite => (),
         }
     }
-- 
2.43.0


From f18c5256fa76b84d0dbb8300e2ac338248d92f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:54 +0000
Subject: [PATCH 50/78] fix: SequenceIteratorInput checks tags and stops after
 an error

---
 src/asn1_types/sequence/iterator.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index 122867b..ffc67b1 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -114,6 +114,7 @@ where
     Mode: ASN1Mode,
 {
     iter: AnyIterator<'a, Mode>,
+    has_error: bool,
     t: PhantomData<*const T>,
     e: PhantomData<*const E>,
 }
@@ -126,6 +127,7 @@ where
         let iter = AnyIterator::new(input);
         Self {
             iter,
+            has_error: false,
             t: PhantomData,
             e: PhantomData,
         }
@@ -141,10 +143,19 @@ where
     type Item = Result<T, E>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.has_error {
+            return None;
+        }
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                self.has_error = true;
+                let tag = any.tag();
+                Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
+            }
             Some(Ok((_, any))) => match T::from_ber_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
+                    self.has_error = true;
                     let e = match e {
                         nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
                         nom::Err::Incomplete(n) => {
@@ -172,10 +183,19 @@ where
     type Item = Result<T, E>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.has_error {
+            return None;
+        }
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                self.has_error = true;
+                let tag = any.tag();
+                Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
+            }
             Some(Ok((_, any))) => match T::from_der_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
+                    self.has_error = true;
                     let e = match e {
                         nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
                         nom::Err::Incomplete(n) => {
-- 
2.43.0


From bfb1976db50a39ff7e4919cfb4f22e3d59ff3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:51 +0000
Subject: [PATCH 51/78] fix: Any::iter_elements follows the requested mode

---
 src/asn1_types/any.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 8c4285f..688f12c 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -137,8 +137,8 @@ impl<'a> Any<'a> {
     ///
     /// This makes sense only if `Self` is constructed, but the constructed bit is
     /// _not_ checked by this function.
-    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, BerMode> {
-        AnyIterator::<BerMode>::new(self.data.clone())
+    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, Mode> {
+        AnyIterator::<Mode>::new(self.data.clone())
     }
 }
 
-- 
2.43.0


From 808e3a9dbf9714b5198ce9cfda8dec07305ebf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:04 +0000
Subject: [PATCH 52/78] fix: UtcTime::timestamp uses the adjusted year

---
 src/asn1_types/utctime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index a1c61ad..e3964d0 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -131,7 +131,7 @@ impl UtcTime {
     #[cfg(feature = "datetime")]
     #[cfg_attr(docsrs, doc(cfg(feature = "datetime")))]
     pub fn timestamp(&self) -> Result<i64> {
-        let dt = self.0.to_datetime()?;
+        let dt = self.utc_adjusted_datetime()?;
         Ok(dt.unix_timestamp())
     }
 }
-- 
2.43.0


From 0e023a43a2c627c187d65a7367281392ec244df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 53/78] fix: the text of an ASN1DateTime has its own time zone

---
 src/datetime.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 661de8b..9d09b7c 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -168,9 +168,17 @@ impl fmt::Display for ASN1DateTime {
         };
         write!(
             f,
-            "{:04}{:02}{:02}{:02}{:02}{:02}{}Z",
+            "{:04}{:02}{:02}{:02}{:02}{:02}{}",
             self.year, self.month, self.day, self.hour, self.minute, self.second, fractional,
-        )
+        )?;
+        match self.tz {
+            ASN1TimeZone::Undefined => Ok(()),
+            ASN1TimeZone::Z => f.write_str("Z"),
+            ASN1TimeZone::Offset(hh, mm) => {
+                let s = if hh < 0 || mm < 0 { '-' } else { '+' };
+                write!(f, "{}{:02}{:02}", s, hh.unsigned_abs(), mm.unsigned_abs())
+            }
+        }
     }
 }
 
-- 
2.43.0


From d0d0e3bad6d6c9b418e990b7d7ce767b97d20f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 54/78] fix: read negative integers with superfluous octets
 like positive ones

---
 src/asn1_types/integer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index 11919a9..175e685 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -61,6 +61,8 @@ fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn decode_array_int<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
+    let bytes = trim_slice(bytes);
+
     if bytes.len() > N {
         return Err(Error::IntegerTooLarge);
     }
-- 
2.43.0


From de8108c456ee1f71b212c8a4fef04c4bf2800602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 55/78] fix: reject signs in the text of an object identifier

---
 src/asn1_types/oid.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 4b1a54e..d9c8455 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -402,6 +402,10 @@ impl FromStr for Oid<'_> {
     type Err = OidParseError;
 
     fn from_str(s: &str) -> core::result::Result<Self, Self::Err> {
+        // a component is a sequence of digits (no sign)
+        if !s.bytes().all(|b| b == b'.' || b.is_ascii_digit()) {
+            return Err(OidParseError::ParseIntError);
+        }
         let v: core::result::Result<Vec<_>, _> = s.split('.').map(|c| c.parse::<u64>()).collect();
         v.map_err(|_| OidParseError::ParseIntError)
             .and_then(|v| Oid::from(&v))
-- 
2.43.0


From 9d6b6a253b0045665d25140aeec6a7a60b3854ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 56/78] fix: reject relative object identifiers without
 components

---
 src/asn1_types/oid.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index d9c8455..09e84b8 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -296,6 +296,9 @@ impl<'a> Oid<'a> {
         let (rem, any) = Any::from_ber(bytes)?;
         any.header.assert_primitive()?;
         any.header.assert_tag(Tag::RelativeOid)?;
+        if any.data.is_empty() {
+            return Err(Err::Error(Error::InvalidLength));
+        }
         let asn1 = Cow::Borrowed(any.data.as_bytes2());
         Ok((rem, Oid::new_relative(asn1)))
     }
@@ -304,6 +307,9 @@ impl<'a> Oid<'a> {
         let (rem, any) = Any::from_der(bytes)?;
         any.header.assert_tag(Tag::RelativeOid)?;
         Self::check_constraints(&any)?;
+        if any.data.is_empty() {
+            return Err(Err::Error(Error::InvalidLength));
+        }
         let asn1 = Cow::Borrowed(any.data.as_bytes2());
         Ok((rem, Oid::new_relative(asn1)))
     }
-- 
2.43.0


From 41b9e3b3f0d0a2e75aaafa89cd38630066802654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:31 +0000
Subject: [PATCH 57/78] fix: the identification of an EMBEDDED PDV is
 explicitly tagged, as it is a CHOICE

---
 src/asn1_types/embedded_pdv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 364fab3..1980617 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -50,8 +50,8 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
         // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
 
         // [0] -> identification
-        // this is a [0 IMPLICIT] SEQUENCE, so we can just parse it as Any and take the content
-        let (rem, t0) = TaggedImplicit::<Any, Self::Error, 0>::parse_ber(input)?;
+        // this is a CHOICE, so the tag is EXPLICIT (X.680 31.2.7): the content is the alternative
+        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::parse_ber(input)?;
         let inner0 = t0.into_inner();
         let identification = match inner0.tag() {
             Tag(0) => {
-- 
2.43.0


From 4e732f495b1555bf57ffb3399d6738f5fcfc7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:25 +0000
Subject: [PATCH 58/78] fix: EMBEDDED PDV is constructed, and its components
 are DER in DER mode

---
 src/asn1_types/embedded_pdv.rs | 57 +++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 1980617..96fb06b 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -39,30 +39,33 @@ impl Tagged for EmbeddedPdv<'_> {
 
 impl_tryfrom_any!('i @ EmbeddedPdv<'i>);
 
-impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
-    type Error = BerError<Input<'i>>;
-
-    fn from_ber_content(
-        _header: &'_ Header<'i>,
-        input: Input<'i>,
-    ) -> IResult<Input<'i>, Self, Self::Error> {
+// The BER and DER parsers of the content differ only in the parsers of the components
+macro_rules! parse_pdv_content {
+    ($header:ident, $input:ident, $parse:ident, $content:ident) => {{
+        $header
+            .assert_constructed_input(&$input)
+            .map_err(Err::Error)?;
         // AUTOMATIC TAGS means all values will be tagged (IMPLICIT)
         // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
 
         // [0] -> identification
         // this is a CHOICE, so the tag is EXPLICIT (X.680 31.2.7): the content is the alternative
-        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::parse_ber(input)?;
+        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::$parse($input)?;
         let inner0 = t0.into_inner();
         let identification = match inner0.tag() {
             Tag(0) => {
+                inner0
+                    .header
+                    .assert_constructed_input(&inner0.data)
+                    .map_err(Err::Error)?;
                 // syntaxes SEQUENCE {
                 //     abstract OBJECT IDENTIFIER,
                 //     transfer OBJECT IDENTIFIER
                 // },
                 let inner_data = inner0.data;
                 let (rem, t_abstract) =
-                    TaggedImplicit::<Oid, Self::Error, 0>::parse_ber(inner_data)?;
-                let (_, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                    TaggedImplicit::<Oid, Self::Error, 0>::$parse(inner_data)?;
+                let (_, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::$parse(rem)?;
                 PdvIdentification::Syntaxes {
                     s_abstract: t_abstract.into_inner(),
                     s_transfer: t_transfer.into_inner(),
@@ -70,24 +73,28 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             }
             Tag(1) => {
                 // syntax OBJECT IDENTIFIER
-                let (_, oid) = Oid::from_ber_content(&inner0.header, inner0.data)?;
+                let (_, oid) = Oid::$content(&inner0.header, inner0.data)?;
                 PdvIdentification::Syntax(oid)
             }
             Tag(2) => {
                 // presentation-context-id INTEGER
-                let (_, i) = Integer::from_ber_content(&inner0.header, inner0.data)?;
+                let (_, i) = Integer::$content(&inner0.header, inner0.data)?;
                 PdvIdentification::PresentationContextId(i)
             }
             Tag(3) => {
+                inner0
+                    .header
+                    .assert_constructed_input(&inner0.data)
+                    .map_err(Err::Error)?;
                 // context-negotiation SEQUENCE {
                 //     presentation-context-id INTEGER,
                 //     transfer-syntax OBJECT IDENTIFIER
                 // },
                 let inner_data = inner0.data;
                 let (rem, t_presentation_context_id) =
-                    TaggedImplicit::<Integer, Self::Error, 0>::parse_ber(inner_data)?;
+                    TaggedImplicit::<Integer, Self::Error, 0>::$parse(inner_data)?;
                 let (_, t_presentation_syntax) =
-                    TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                    TaggedImplicit::<Oid, Self::Error, 1>::$parse(rem)?;
 
                 let presentation_context_id = t_presentation_context_id.into_inner();
                 let presentation_syntax = t_presentation_syntax.into_inner();
@@ -98,11 +105,12 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             }
             Tag(4) => {
                 // transfer-syntax OBJECT IDENTIFIER
-                let (_, oid) = Oid::from_ber_content(&inner0.header, inner0.data)?;
+                let (_, oid) = Oid::$content(&inner0.header, inner0.data)?;
                 PdvIdentification::TransferSyntax(oid)
             }
             Tag(5) => {
                 // fixed NULL
+                let _ = Null::$content(&inner0.header, inner0.data)?;
                 PdvIdentification::Fixed
             }
             _ => {
@@ -115,10 +123,10 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
         };
         // [1] -> data-value-descriptor ObjectDescriptor OPTIONAL
         // *BUT* WITH COMPONENTS data-value-descriptor ABSENT
-        let (rem, t1) = <Option<TaggedImplicit<ObjectDescriptor, Self::Error, 1>>>::parse_ber(rem)?;
+        let (rem, t1) = <Option<TaggedImplicit<ObjectDescriptor, Self::Error, 1>>>::$parse(rem)?;
         let data_value_descriptor = t1.map(|o| o.into_inner());
         // [2] -> data-value OCTET STRING
-        let (rem, t2) = TaggedImplicit::<&[u8], Self::Error, 2>::parse_ber(rem)?;
+        let (rem, t2) = TaggedImplicit::<&[u8], Self::Error, 2>::$parse(rem)?;
         let data_value = t2.into_inner();
 
         let obj = EmbeddedPdv {
@@ -127,6 +135,17 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             data_value,
         };
         Ok((rem, obj))
+    }};
+}
+
+impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
+    type Error = BerError<Input<'i>>;
+
+    fn from_ber_content(
+        header: &'_ Header<'i>,
+        input: Input<'i>,
+    ) -> IResult<Input<'i>, Self, Self::Error> {
+        parse_pdv_content!(header, input, parse_ber, from_ber_content)
     }
 }
 
@@ -137,7 +156,7 @@ impl<'i> DerParser<'i> for EmbeddedPdv<'i> {
         header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
-        Self::from_ber_content(header, input)
+        parse_pdv_content!(header, input, parse_der, from_der_content)
     }
 }
 
@@ -145,6 +164,8 @@ impl CheckDerConstraints for EmbeddedPdv<'_> {
     fn check_constraints(any: &Any) -> Result<()> {
         any.header.length().assert_definite()?;
         any.header.assert_constructed()?;
+        // the components must be DER, too
+        EmbeddedPdv::from_der_content(&any.header, any.data.clone()).map_err(Error::from_nom_berr)?;
         Ok(())
     }
 }
-- 
2.43.0


From 1921b9bf210abe3a54cb1541eaeed7d64f2e581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:53 +0000
Subject: [PATCH 59/78] fix: implicitly tagged TaggedParser values are
 constructed like their inner value

---
 src/asn1_types/tagged/implicit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index aab89e9..390be77 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -357,7 +357,9 @@ const _: () = {
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            // X.690 section 8.14.3: constructed if the base encoding is constructed
+            let (_, constructed, _) = self.inner.ber_tag_info();
+            (self.class(), constructed, self.tag())
         }
     }
 
@@ -376,7 +378,9 @@ const _: () = {
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            // X.690 section 8.14.3: constructed if the base encoding is constructed
+            let (_, constructed, _) = self.inner.der_tag_info();
+            (self.class(), constructed, self.tag())
         }
     }
 };
-- 
2.43.0


From a532f9b365528b9c08c85d4400f639f9f0d453b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 60/78] fix: Sequence and Set continuation parsers reject
 primitive encodings

---
 src/asn1_types/sequence.rs | 8 ++++++++
 src/asn1_types/set.rs      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/asn1_types/sequence.rs b/src/asn1_types/sequence.rs
index c18d522..ea2a602 100644
--- a/src/asn1_types/sequence.rs
+++ b/src/asn1_types/sequence.rs
@@ -190,6 +190,10 @@ impl<'a> Sequence<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Sequence), any.tag()).into(),
             ))?;
         }
+        // Encoding shall be constructed (X.690: 8.9.1)
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
@@ -227,6 +231,10 @@ impl<'a> Sequence<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Sequence), any.tag()).into(),
             ))?;
         }
+        // Encoding shall be constructed (X.690: 8.9.1)
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
diff --git a/src/asn1_types/set.rs b/src/asn1_types/set.rs
index 47d445e..8956471 100644
--- a/src/asn1_types/set.rs
+++ b/src/asn1_types/set.rs
@@ -187,6 +187,10 @@ impl<'a> Set<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Set), any.tag()).into(),
             ))?;
         }
+        // Encoding shall be constructed (X.690: 8.11.1)
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
@@ -224,6 +228,10 @@ impl<'a> Set<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Set), any.tag()).into(),
             ))?;
         }
+        // Encoding shall be constructed (X.690: 8.11.1)
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
-- 
2.43.0


From c69f067ea1cd1507c52b36e6aacd0f1e0ea1f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 61/78] fix: Any::as_any_str and as_any_string handle
 constructed strings

---
 src/asn1_types/any.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 688f12c..79a2775 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -414,7 +414,7 @@ impl<'a> Any<'a> {
     /// Attempt to get value as `str`, for all known string types
     ///
     /// This function does not allocate data, so it supports all string types except
-    /// `BmpString` and `UniversalString`.
+    /// `BmpString` and `UniversalString`, and except constructed (segmented) encodings.
     pub fn as_any_str(&self) -> Result<&str> {
         match self.tag() {
             Tag::GeneralString
@@ -427,6 +427,10 @@ impl<'a> Any<'a> {
             | Tag::Utf8String
             | Tag::VideotexString
             | Tag::VisibleString => {
+                // the segments of a constructed string cannot be joined without allocating
+                if self.header.constructed() {
+                    return Err(Error::LifetimeError);
+                }
                 let res = core::str::from_utf8(self.data.as_bytes2())?;
                 Ok(res)
             }
@@ -448,7 +452,9 @@ impl<'a> Any<'a> {
             | Tag::Utf8String
             | Tag::VideotexString
             | Tag::VisibleString => {
-                let res = core::str::from_utf8(self.data.as_bytes2())?;
+                let (_, data) = OctetString::from_ber_content(&self.header, self.data.clone())
+                    .map_err(Error::from_nom_berr)?;
+                let res = core::str::from_utf8(data.as_ref())?;
                 Ok(res.to_string())
             }
             Tag::BmpString => {
-- 
2.43.0


From 7062b648630260e3bdf83e1b80c23c7243d388c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:04 +0000
Subject: [PATCH 62/78] fix: Any::relative_oid rejects the contents that Oid
 rejects

---
 src/asn1_types/any.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 79a2775..92350af 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -307,6 +307,10 @@ impl<'a> Any<'a> {
     /// Attempt to convert object to `Oid` (ASN.1 type: `RELATIVE-OID`).
     pub fn relative_oid(self) -> Result<Oid<'a>> {
         self.header.assert_tag(Tag::RelativeOid)?;
+        self.header.assert_primitive()?;
+        if self.data.is_empty() {
+            return Err(Error::InvalidLength);
+        }
         let asn1 = Cow::Borrowed(self.data.into_bytes());
         Ok(Oid::new_relative(asn1))
     }
@@ -355,6 +359,10 @@ impl<'a> Any<'a> {
     /// Attempt to create ASN.1 type `RELATIVE-OID` from this object.
     pub fn as_relative_oid(&'a self) -> Result<Oid<'a>> {
         self.header.assert_tag(Tag::RelativeOid)?;
+        self.header.assert_primitive()?;
+        if self.data.is_empty() {
+            return Err(Error::InvalidLength);
+        }
         let asn1 = Cow::Borrowed(self.data.as_bytes2());
         Ok(Oid::new_relative(asn1))
     }
-- 
2.43.0


From b9c02450329c7c0f81ffcbfcf278478ede1bb768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:06 +0000
Subject: [PATCH 63/78] fix: build with the feature datetime but without std

---
 src/datetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 9d09b7c..7983b9f 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -133,7 +133,7 @@ impl ASN1DateTime {
     fn to_time_datetime(
         &self,
     ) -> core::result::Result<OffsetDateTime, time::error::ComponentRange> {
-        use std::convert::TryFrom;
+        use core::convert::TryFrom;
         use time::{Date, Month, PrimitiveDateTime, Time, UtcOffset};
 
         let month = Month::try_from(self.month)?;
-- 
2.43.0


From d096b1bee60e081d2b4b1f8c72d1076f89b0d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:10 +0000
Subject: [PATCH 64/78] fix: values of REAL objects whose mantissa compensates
 a large exponent

---
 src/asn1_types/real.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index c9d275a..df6191a 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -176,16 +176,23 @@ impl Real {
                         return f;
                     }
                 }
-                let base = *base as f64;
+                let (base, mut exponent) = match *base {
+                    8 => (2.0, 3 * i64::from(*exponent)),
+                    16 => (2.0, 4 * i64::from(*exponent)),
+                    b => (f64::from(b), i64::from(*exponent)),
+                };
                 let mut f = *mantissa;
-                let mut exponent = *exponent;
                 // scale in steps: `base^exponent` alone can be out of range while the value is not
-                const STEP: i32 = 300;
-                while f != 0.0 && f.is_finite() && exponent != 0 {
-                    let e = exponent.clamp(-STEP, STEP);
-                    f *= base.powi(e);
+                // (a step of 2^-969 rounds a subnormal value only if the final value is zero)
+                let (max, step) = if base == 2.0 { (1022, 969) } else { (300, 300) };
+                while f != 0.0 && f.is_finite() && exponent.abs() > max {
+                    let e = exponent.clamp(-step, step);
+                    f *= base.powi(e as i32);
                     exponent -= e;
                 }
+                if f != 0.0 && f.is_finite() {
+                    f *= base.powi(exponent as i32);
+                }
                 f
             }
             Real::Zero => 0.0_f64,
-- 
2.43.0


From c9d0be818d289d91d61748a583b05105143b1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 65/78] fix: DER constraints of explicitly tagged values apply
 to the inner header

---
 src/asn1_types/tagged/explicit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index dd90602..b1da4e6 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -163,7 +163,7 @@ where
 {
     fn check_constraints(any: &Any) -> Result<()> {
         any.header.length.assert_definite()?;
-        let (_, inner) = Any::from_ber(any.data.as_bytes2())?;
+        let (_, inner) = Any::from_der(any.data.as_bytes2())?;
         T::check_constraints(&inner)?;
         Ok(())
     }
-- 
2.43.0


From 5cc22546a0c0d636218fb872a83f0088cb5954b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:54 +0000
Subject: [PATCH 66/78] fix: DER constraints of derived structs follow tags,
 OPTIONAL and DEFAULT

---
 derive/src/container.rs | 85 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 13 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 40e394f..06256d3 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -5,8 +5,8 @@ use quote::{quote, ToTokens};
 use syn::parse::ParseStream;
 use syn::spanned::Spanned;
 use syn::{
-    parse_quote, Attribute, DataStruct, DeriveInput, Expr, Field, Fields, Ident, Lifetime, LitInt,
-    LitStr, Meta, Type, WherePredicate,
+    parse_quote, Attribute, DataStruct, DeriveInput, Expr, Field, Fields, GenericArgument, Ident,
+    Lifetime, LitInt, LitStr, Meta, PathArguments, Type, WherePredicate,
 };
 
 use crate::asn1_type::Asn1Type;
@@ -420,17 +420,7 @@ impl Container {
                 <#ty>::check_constraints(any)
             }
         } else {
-            let check_fields: Vec<_> = self
-                .fields
-                .iter()
-                .map(|field| {
-                    let ty = &field.type_;
-                    quote! {
-                        let (rem, any) = Any::from_der(rem)?;
-                        <#ty as CheckDerConstraints>::check_constraints(&any)?;
-                    }
-                })
-                .collect();
+            let check_fields: Vec<_> = self.fields.iter().map(get_field_checkconstraints).collect();
             quote! {
                 any.tag().assert_eq(Self::TAG)?;
                 let rem = any.data.as_bytes2();
@@ -916,6 +906,75 @@ fn get_field_parser(f: &FieldInfo, asn1_type: Asn1Type, custom_errors: bool) ->
     }
 }
 
+/// Generate the verification of DER constraints of one field: same object as the one the parser
+/// (see `get_field_parser`) will use for this field
+fn get_field_checkconstraints(f: &FieldInfo) -> TokenStream {
+    let ty = &f.type_;
+    // type of the object (for optional fields, `T` instead of `Option<T>`)
+    let inner = if f.optional && f.default.is_none() {
+        option_inner_type(ty)
+    } else {
+        Some(ty)
+    };
+    let (is_present, check) = match f.tag {
+        Some((tag_kind, class, n)) => {
+            let tag = Literal::u16_unsuffixed(n);
+            let ty = match inner {
+                Some(inner) => quote! {
+                    asn1_rs::TaggedValue::<#inner, asn1_rs::Error, #tag_kind, {#class}, #tag>
+                },
+                // alias to `Option<T>`
+                None => quote! { #ty },
+            };
+            (
+                quote! { header.tag().0 == #tag },
+                quote! { <#ty as CheckDerConstraints>::check_constraints(&any)?; },
+            )
+        }
+        None => (
+            quote! { <#ty as asn1_rs::DynTagged>::accept_tag(header.tag()) },
+            quote! { <#ty as CheckDerConstraints>::check_constraints(&any)?; },
+        ),
+    };
+    if f.optional {
+        quote! {
+            let rem = if rem.is_empty() {
+                rem
+            } else {
+                let (_, header): (_, asn1_rs::Header) = asn1_rs::FromDer::from_der(rem)?;
+                if #is_present {
+                    let (rem, any) = Any::from_der(rem)?;
+                    #check
+                    rem
+                } else {
+                    // absent field
+                    rem
+                }
+            };
+        }
+    } else {
+        quote! {
+            let (rem, any) = Any::from_der(rem)?;
+            #check
+        }
+    }
+}
+
+/// If type is `Option<T>`, return `T`
+fn option_inner_type(ty: &Type) -> Option<&Type> {
+    let Type::Path(path) = ty else { return None };
+    let segment = path.path.segments.last()?;
+    match &segment.arguments {
+        PathArguments::AngleBracketed(args) if segment.ident == "Option" => {
+            match args.args.first()? {
+                GenericArgument::Type(inner) => Some(inner),
+                _ => None,
+            }
+        }
+        _ => None,
+    }
+}
+
 fn derive_berparser_sequence_content(fields: &[FieldInfo], asn1_type: Asn1Type) -> TokenStream {
     let field_parsers: Vec<_> = fields
         .iter()
-- 
2.43.0


From 7293e7b5afea553968d14be4725d12a0d518aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:32 +0000
Subject: [PATCH 67/78] fix: SET OF, AnySequence and AnySet are constructed

---
 src/asn1_types/sequence/any_sequence.rs | 1 +
 src/asn1_types/set/any_set.rs           | 1 +
 src/asn1_types/set/set_of.rs            | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/asn1_types/sequence/any_sequence.rs b/src/asn1_types/sequence/any_sequence.rs
index cc05c01..aec1f33 100644
--- a/src/asn1_types/sequence/any_sequence.rs
+++ b/src/asn1_types/sequence/any_sequence.rs
@@ -54,6 +54,7 @@ impl<'a> AnySequence<'a> {
 }
 
 impl Tagged for AnySequence<'_> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Sequence;
 }
 
diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index 9ac666e..90477c9 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -59,6 +59,7 @@ impl<'a, S: BuildHasher> AnySet<'a, S> {
 }
 
 impl<S> Tagged for AnySet<'_, S> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 77c7230..064bede 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -201,6 +201,7 @@ where
 }
 
 impl<T> Tagged for SetOf<T> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
-- 
2.43.0


From ee47cbe93976e13f03c8d9dfdeb7911db58efc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:53 +0000
Subject: [PATCH 68/78] fix: length of explicitly tagged absent optional values

---
 src/asn1_types/tagged/explicit.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index b1da4e6..69bec21 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -179,9 +179,8 @@ const _: () = {
         type Encoder = BerGenericEncoder;
 
         fn ber_content_len(&self) -> Length {
-            let content_len = self.inner.ber_content_len();
-            let header_len = ber_header_length(self.inner.tag(), content_len).unwrap_or(0);
-            header_len + content_len
+            // note: nothing is written for absent optional values
+            self.inner.ber_total_len()
         }
 
         fn ber_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -201,9 +200,8 @@ const _: () = {
         type Encoder = BerGenericEncoder;
 
         fn der_content_len(&self) -> Length {
-            let content_len = self.inner.der_content_len();
-            let header_len = ber_header_length(self.inner.tag(), content_len).unwrap_or(0);
-            header_len + content_len
+            // note: nothing is written for absent optional values
+            self.inner.der_total_len()
         }
 
         fn der_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
-- 
2.43.0


From b33c40abcd2a18c3b390f330975446dabbdecb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:56 +0000
Subject: [PATCH 69/78] fix: derived aliases are constructed if their type is

---
 derive/src/container.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 06256d3..29658c1 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -213,11 +213,10 @@ impl Container {
     }
 
     pub fn gen_tagged(&self) -> TokenStream {
-        let mut constructed = true;
+        let constructed;
         let class;
         let tag;
         if self.container_type == ContainerType::Alias {
-            constructed = false;
             // special case: is this an alias for Any
             if self.is_any {
                 return quote! {
@@ -243,10 +242,12 @@ impl Container {
             }
             // find type of sub-item
             let ty = &self.fields[0].type_;
+            constructed = quote! { <#ty as asn1_rs::Tagged>::CONSTRUCTED };
             class = quote! { <#ty as asn1_rs::Tagged>::CLASS };
             tag = quote! { <#ty as asn1_rs::Tagged>::TAG };
         } else {
             let container_type = self.container_type;
+            constructed = quote! { true };
             class = quote! { asn1_rs::Class::Universal };
             tag = quote! { #container_type };
         }
-- 
2.43.0


From 7b674ed8fb23e5480311f25aa25eec0596ff42dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:13 +0000
Subject: [PATCH 70/78] fix: reason of refused values of derived enumerations

---
 derive/src/enumerated.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/enumerated.rs b/derive/src/enumerated.rs
index 7194846..0ad1567 100644
--- a/derive/src/enumerated.rs
+++ b/derive/src/enumerated.rs
@@ -149,7 +149,11 @@ impl<'s> DeriveEnumerated<'s> {
                     #(#match_branches)*
                     _ => {
                         return Err(asn1_rs::nom::Err::Error(
-                            asn1_rs::BerError::unexpected_tag(input, None, header.tag()).into()
+                            asn1_rs::BerError::invalid_value(
+                                input,
+                                asn1_rs::Tag::Enumerated,
+                                "value is not in the enumeration".into(),
+                            ).into()
                         ));
                     }
                 };
-- 
2.43.0


From 9e27818339b20ec4ffe6f1db42ad414af01981f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 71/78] fix: total length of implicitly tagged values written
 with indefinite length

---
 derive/src/container.rs | 15 ++++++++++++++-
 src/to_ber.rs           | 12 +++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 29658c1..127d994 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -509,6 +509,7 @@ impl Container {
             asn1_type.total_len_tokens()
         };
         let content_len = asn1_type.content_len_tokens();
+        let tag_info = asn1_type.tag_info_tokens();
 
         let body = s.fold(quote! {asn1_rs::Length::Definite(0)}, |acc, bi| {
             // check if binding has a 'tag_explicit' or 'tag_implicit' attribute
@@ -537,7 +538,19 @@ impl Container {
                         #acc + match #bi.#total_len() {
                             // absent optional field: nothing is written
                             asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
-                            _ => asn1_rs::ber_total_length(asn1_rs::Tag(#tag), #bi.#content_len()),
+                            length => match #bi.#content_len() {
+                                // the tag replaces the tag of the object
+                                asn1_rs::Length::Indefinite => {
+                                    let (_, _, object_tag) = #bi.#tag_info();
+                                    match length {
+                                        asn1_rs::Length::Definite(l) => asn1_rs::Length::Definite(
+                                            l - asn1_rs::ber_tag_length(object_tag) + asn1_rs::ber_tag_length(asn1_rs::Tag(#tag))
+                                        ),
+                                        length => length,
+                                    }
+                                }
+                                content_len => asn1_rs::ber_total_length(asn1_rs::Tag(#tag), content_len),
+                            },
                         }
                     }
                 }
diff --git a/src/to_ber.rs b/src/to_ber.rs
index 615c7c5..647eb25 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -1,6 +1,6 @@
 #![cfg(feature = "std")]
 
-use std::io::Write;
+use std::io::{self, Write};
 
 use crate::{Class, Header, InnerError, Length, SerializeResult, Tag};
 
@@ -31,8 +31,14 @@ pub trait ToBer {
     /// Returns the total length (including header) of the encoded content of the object
     fn ber_total_len(&self) -> Length {
         let (_, _, tag) = self.ber_tag_info();
-        let content_length = self.ber_content_len();
-        ber_total_length(tag, content_length)
+        match self.ber_content_len() {
+            // the size of the content is not given by its length: measure the encoded object
+            Length::Indefinite => match self.ber_encode(&mut io::sink()) {
+                Ok(sz) => Length::Definite(sz),
+                Err(_) => Length::Indefinite,
+            },
+            content_length => ber_total_length(tag, content_length),
+        }
     }
 
     /// Return the tag information to be encoded in header
-- 
2.43.0


From e2ccfe467849481477de7937e24087f715a108c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:57 +0000
Subject: [PATCH 72/78] fix: optional tagged components of derived sequences
 are recognised by class and tag number

---
 derive/src/container.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 127d994..2e2a413 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -891,7 +891,7 @@ fn get_field_parser(f: &FieldInfo, asn1_type: Asn1Type, custom_errors: bool) ->
                         (i, None)
                     } else {
                         let (_, header): (_, asn1_rs::Header) = #from(i)#map_err?;
-                        if header.tag().0 == #tag {
+                        if header.tag().0 == #tag && header.class() as u8 == #class {
                             let (i, t): (_, asn1_rs::TaggedValue::<_, _, #tag_kind, {#class}, #tag>) = #from(i)#map_err?;
                             (i, Some(t.into_inner()))
                         } else {
@@ -941,7 +941,7 @@ fn get_field_checkconstraints(f: &FieldInfo) -> TokenStream {
                 None => quote! { #ty },
             };
             (
-                quote! { header.tag().0 == #tag },
+                quote! { header.tag().0 == #tag && header.class() as u8 == #class },
                 quote! { <#ty as CheckDerConstraints>::check_constraints(&any)?; },
             )
         }
@@ -1057,7 +1057,7 @@ fn get_field_berparser(f: &FieldInfo, asn1_type: Asn1Type) -> TokenStream {
                         // clone rem, #map_err may consume it
                         let rem_copy = rem.clone();
                         let (_, obj_header): (_, asn1_rs::Header) = #from(rem_copy)#map_err?;
-                        if obj_header.tag().0 == #tag {
+                        if obj_header.tag().0 == #tag && obj_header.class() as u8 == #class {
                             let (rem, t): (_, asn1_rs::TaggedValue::<
                                 _,
                                 <#f_ty as asn1_rs::#parser>::Error,
-- 
2.43.0


From 5f4b81e6b4287d67d0f01d843312e284b1a0168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:31 +0000
Subject: [PATCH 73/78] fix: objects of another class are not taken for
 OPTIONAL objects

---
 derive/src/alias.rs               |  2 ++
 derive/src/container.rs           |  2 +-
 derive/src/enumerated.rs          |  2 ++
 src/asn1_types/oid.rs             |  4 ++++
 src/asn1_types/optional.rs        | 12 ++++++++----
 src/asn1_types/tagged/implicit.rs |  4 ++++
 src/from_ber.rs                   |  2 +-
 src/from_der.rs                   |  2 +-
 src/tag.rs                        | 14 +++++++++++++-
 9 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/derive/src/alias.rs b/derive/src/alias.rs
index 1bdd088..d2112e8 100644
--- a/derive/src/alias.rs
+++ b/derive/src/alias.rs
@@ -118,6 +118,8 @@ impl<'s> DeriveAlias<'s> {
             gen impl asn1_rs::DynTagged for @Self {
                 fn accept_tag(tag: asn1_rs::Tag) -> bool { <#ty as asn1_rs::DynTagged>::accept_tag(tag) }
 
+                fn accept_header(header: &asn1_rs::Header) -> bool { <#ty as asn1_rs::DynTagged>::accept_header(header) }
+
                 fn class(&self) -> asn1_rs::Class { self.0.class() }
 
                 fn constructed(&self) -> bool { self.0.constructed() }
diff --git a/derive/src/container.rs b/derive/src/container.rs
index 2e2a413..e24f0ea 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -946,7 +946,7 @@ fn get_field_checkconstraints(f: &FieldInfo) -> TokenStream {
             )
         }
         None => (
-            quote! { <#ty as asn1_rs::DynTagged>::accept_tag(header.tag()) },
+            quote! { <#ty as asn1_rs::DynTagged>::accept_header(&header) },
             quote! { <#ty as CheckDerConstraints>::check_constraints(&any)?; },
         ),
     };
diff --git a/derive/src/enumerated.rs b/derive/src/enumerated.rs
index 0ad1567..3ab496b 100644
--- a/derive/src/enumerated.rs
+++ b/derive/src/enumerated.rs
@@ -91,6 +91,8 @@ impl<'s> DeriveEnumerated<'s> {
             gen impl asn1_rs::DynTagged for @Self {
                 fn accept_tag(tag: asn1_rs::Tag) -> bool { tag == asn1_rs::Tag::Enumerated }
 
+                fn accept_header(header: &asn1_rs::Header) -> bool { header.is_universal() && header.tag() == asn1_rs::Tag::Enumerated }
+
                 fn class(&self) -> asn1_rs::Class { asn1_rs::Class::Universal }
 
                 fn constructed(&self) -> bool { false }
diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 09e84b8..bbc682f 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -102,6 +102,10 @@ impl DynTagged for Oid<'_> {
     fn accept_tag(tag: Tag) -> bool {
         tag == Tag::Oid || tag == Tag::RelativeOid
     }
+
+    fn accept_header(header: &Header) -> bool {
+        header.is_universal() && Self::accept_tag(header.tag())
+    }
 }
 
 #[cfg(feature = "std")]
diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 56f209c..a118c19 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -21,7 +21,7 @@ where
             return Ok((bytes, None));
         }
         if let Ok((_, header)) = Header::from_ber(bytes) {
-            if !T::accept_tag(header.tag) {
+            if !T::accept_header(&header) {
                 // not the expected tag, early return
                 return Ok((bytes, None));
             }
@@ -51,7 +51,7 @@ where
 
             let (rem, header) = Header::parse_ber(input.clone()).map_err(Err::convert)?;
             // NOTE: we add this to default trait impl
-            if !T::accept_tag(header.tag) {
+            if !T::accept_header(&header) {
                 return Ok((input, None));
             }
             // NOTE: end
@@ -94,7 +94,7 @@ where
 
             let (rem, header) = Header::parse_der(input.clone()).map_err(Err::convert)?;
             // NOTE: we add this to default trait impl
-            if !T::accept_tag(header.tag) {
+            if !T::accept_header(&header) {
                 return Ok((input, None));
             }
             // NOTE: end
@@ -129,7 +129,7 @@ where
             return Ok((bytes, None));
         }
         if let Ok((_, header)) = Header::from_der(bytes) {
-            if !T::accept_tag(header.tag) {
+            if !T::accept_header(&header) {
                 // not the expected tag, early return
                 return Ok((bytes, None));
             }
@@ -178,6 +178,10 @@ where
     fn accept_tag(tag: Tag) -> bool {
         T::accept_tag(tag)
     }
+
+    fn accept_header(header: &Header) -> bool {
+        T::accept_header(header)
+    }
 }
 
 #[cfg(feature = "std")]
diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index 390be77..58288e3 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -23,6 +23,10 @@ where
     fn accept_tag(tag: Tag) -> bool {
         tag.0 == TAG
     }
+
+    fn accept_header(header: &Header) -> bool {
+        header.tag().0 == TAG && header.class() as u8 == CLASS
+    }
 }
 
 impl<'a, T, E, const CLASS: u8, const TAG: u32> TryFrom<Any<'a>>
diff --git a/src/from_ber.rs b/src/from_ber.rs
index 3cadefd..49a6d00 100644
--- a/src/from_ber.rs
+++ b/src/from_ber.rs
@@ -131,7 +131,7 @@ where
             return Ok((input, None));
         }
         let (rem, header) = Header::parse_ber(input.clone()).map_err(Err::convert)?;
-        if !Self::accept_tag(header.tag) {
+        if !Self::accept_header(&header) {
             return Ok((input, None));
         }
         let (rem, data) =
diff --git a/src/from_der.rs b/src/from_der.rs
index c98c2ca..2e570a1 100644
--- a/src/from_der.rs
+++ b/src/from_der.rs
@@ -183,7 +183,7 @@ where
             return Ok((input, None));
         }
         let (rem, header) = Header::parse_der(input.clone()).map_err(Err::convert)?;
-        if !Self::accept_tag(header.tag) {
+        if !Self::accept_header(&header) {
             return Ok((input, None));
         }
         // get length, rejecting indefinite (invalid for DER)
diff --git a/src/tag.rs b/src/tag.rs
index c2d72ed..f262002 100644
--- a/src/tag.rs
+++ b/src/tag.rs
@@ -1,4 +1,4 @@
-use crate::{Class, Error, InnerError, Result};
+use crate::{Class, Error, Header, InnerError, Result};
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
 use rusticata_macros::newtype_enum;
@@ -126,6 +126,14 @@ pub trait DynTagged {
     /// - type `Any` (accepts all tag numbers)
     /// - ASN.1 type `CHOICE` (accept multiple tags)
     fn accept_tag(tag: Tag) -> bool;
+
+    /// Return true if an object starting with this header can be an object of this type
+    ///
+    /// This test is used to detect if OPTIONAL objects are present: in addition to the tag number,
+    /// it compares the class, if known.
+    fn accept_header(header: &Header) -> bool {
+        Self::accept_tag(header.tag())
+    }
 }
 
 impl<T> DynTagged for T
@@ -147,4 +155,8 @@ where
     fn accept_tag(tag: Tag) -> bool {
         tag == T::TAG
     }
+
+    fn accept_header(header: &Header) -> bool {
+        header.tag() == T::TAG && header.class() == T::CLASS
+    }
 }
-- 
2.43.0


From bee5395563737b87ed613d07a6163280a03aa0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:57 +0000
Subject: [PATCH 74/78] fix: equality of Any does not depend on the position of
 the object

---
 src/asn1_types/any.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 92350af..603d5f0 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -6,6 +6,7 @@ use alloc::borrow::Cow;
 #[cfg(not(feature = "std"))]
 use alloc::string::{String, ToString};
 use core::convert::TryFrom;
+use core::hash::{Hash, Hasher};
 use nom::bytes::streaming::take;
 
 /// The `Any` object is not strictly an ASN.1 type, but holds a generic description of any object
@@ -14,7 +15,7 @@ use nom::bytes::streaming::take;
 /// It contains a header, and a reference to the object content.
 ///
 /// Note: this type is only provided in **borrowed** version (*i.e.* it cannot own the inner data).
-#[derive(Clone, Debug, PartialEq, Eq, Hash)]
+#[derive(Clone, Debug)]
 pub struct Any<'a> {
     /// The object header
     pub header: Header<'a>,
@@ -22,6 +23,22 @@ pub struct Any<'a> {
     pub data: Input<'a>,
 }
 
+// Note: the position of the object in its input is not part of its value
+impl PartialEq for Any<'_> {
+    fn eq(&self, other: &Self) -> bool {
+        self.header == other.header && self.as_bytes() == other.as_bytes()
+    }
+}
+
+impl Eq for Any<'_> {}
+
+impl Hash for Any<'_> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.header.hash(state);
+        Input::from_slice(self.as_bytes()).hash(state);
+    }
+}
+
 impl<'a> Any<'a> {
     /// Create a new `Any` from BER/DER header and content
     #[inline]
-- 
2.43.0


From e4e0046d51e8157400f6b0ee4d6d39cdd9591224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:09 +0000
Subject: [PATCH 75/78] fix: total length of headers of indefinite length

---
 src/header.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 8537a40..6f0f6de 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -408,7 +408,7 @@ impl DynTagged for Header<'_> {
 
 #[cfg(feature = "std")]
 const _: () = {
-    use crate::{BerGenericEncoder, ToBer};
+    use crate::{ber_total_length, BerGenericEncoder, ToBer};
 
     impl ToBer for Header<'_> {
         type Encoder = BerGenericEncoder;
@@ -421,6 +421,11 @@ const _: () = {
             Ok(0)
         }
 
+        // the length of the described object is not the length of what is written (the header)
+        fn ber_total_len(&self) -> Length {
+            ber_total_length(self.tag(), self.length())
+        }
+
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
             (self.class(), self.constructed(), self.tag())
         }
-- 
2.43.0


From e6e4cdbcceed2e13777683913ea11df8fd744e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:52 +0000
Subject: [PATCH 76/78] fix: end-of-contents octets do not end constructed
 strings of definite length

---
 src/ber/appendable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 55fff97..cf3da8a 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -43,7 +43,11 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if obj.header.is_universal() && obj.header.tag() == Tag::EndOfContent {
+            // Note: EndOfContent is not allowed if length is definite (other segments would be lost)
+            if !header.length.is_definite()
+                && obj.header.is_universal()
+                && obj.header.tag() == Tag::EndOfContent
+            {
                 break;
             }
             let Any {
-- 
2.43.0


From f1645a1bdb88948a81566cdbe4a0dc0d37bca6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:28 +0000
Subject: [PATCH 77/78] fix: derived CHOICE tells alternatives apart by class
 and tag number

---
 derive/src/choice.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index b4d839c..ee24381 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -112,6 +112,16 @@ impl<'s> DeriveChoice<'s> {
                 }
             }
         };
+        let accept_header = match self.options.tag_kind {
+            Some(_) => quote! {
+                header.is_contextspecific() && <Self as asn1_rs::DynTagged>::accept_tag(header.tag())
+            },
+            None => {
+                // one of the alternatives accepts the object (tag number and class)
+                let types = self.variants.iter().map(|v| &v.vi.bindings()[0].ast().ty);
+                quote! { #(<#types as asn1_rs::DynTagged>::accept_header(header))||* }
+            }
+        };
         let class = match self.options.tag_kind {
             Some(_) => quote! { asn1_rs::Class::ContextSpecific },
             None => {
@@ -169,6 +179,8 @@ impl<'s> DeriveChoice<'s> {
             gen impl asn1_rs::DynTagged for @Self {
                 fn accept_tag(tag: asn1_rs::Tag) -> bool { #accept_tags }
 
+                fn accept_header(header: &asn1_rs::Header) -> bool { #accept_header }
+
                 fn class(&self) -> asn1_rs::Class { #class }
 
                 fn constructed(&self) -> bool { #constructed }
@@ -263,6 +275,11 @@ impl<'s> DeriveChoice<'s> {
                     type Error = #error;
                     fn #from_ber_content(header: &'_ asn1_rs::Header<#lft>, input: asn1_rs::Input<#lft>) -> asn1_rs::nom::IResult<asn1_rs::Input<#lft>, Self, Self::Error> {
                         #assert_constructed
+                        if !header.is_contextspecific() {
+                            return Err(asn1_rs::nom::Err::Error(
+                                asn1_rs::BerError::unexpected_class(input, Some(asn1_rs::Class::ContextSpecific), header.class()).into()
+                            ));
+                        }
                         let rem = input.clone();
                         match header.tag().0 {
                             #(#parse_branches)*
@@ -304,7 +321,7 @@ impl<'s> DeriveChoice<'s> {
             let construct = v.vi.construct(|_, _i| bi);
             let ty = &bi.ast().ty;
             quote! {
-                if <#ty>::accept_tag(header.tag()) {
+                if <#ty>::accept_header(header) {
                     let (rem, #bi) = asn1_rs::#parser::#from_ber_content(header, rem)#map_err?;
                     Ok((rem, #construct))
                 } else
-- 
2.43.0


From 6a744f475fe001fb64d3f2ff96b05c087590d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:28 +0000
Subject: [PATCH 78/78] fix: alternatives of EMBEDDED PDV must be
 context-specific

---
 src/asn1_types/embedded_pdv.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 96fb06b..aade0e8 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -52,6 +52,14 @@ macro_rules! parse_pdv_content {
         // this is a CHOICE, so the tag is EXPLICIT (X.680 31.2.7): the content is the alternative
         let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::$parse($input)?;
         let inner0 = t0.into_inner();
+        if !inner0.header.is_contextspecific() {
+            let class = inner0.class();
+            return Err(Err::Error(BerError::unexpected_class(
+                inner0.data,
+                Some(Class::ContextSpecific),
+                class,
+            )));
+        }
         let identification = match inner0.tag() {
             Tag(0) => {
                 inner0
-- 
2.43.0

