From 495607aea7c7203a4711698ea66180e5cff62ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 01/41] fix: print the whitespace and comments around a node's
 type annotation

---
 src/node.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6b3c75f..0f9d915 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -277,13 +277,18 @@ impl KdlNode {
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
         if let Some(KdlNodeFormat {
             leading,
+            before_ty_name,
+            after_ty_name,
+            after_ty,
             before_terminator,
             terminator,
             trailing,
             before_children,
-            ..
         }) = self.format_mut()
         {
+            before_ty_name.clear();
+            after_ty_name.clear();
+            after_ty.clear();
             crate::fmt::autoformat_leading(leading, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
@@ -835,7 +840,18 @@ impl KdlNode {
             write!(f, "{:indent$}", "", indent = indent)?;
         }
         if let Some(ty) = &self.ty {
-            write!(f, "({ty})")?;
+            write!(f, "(")?;
+            if let Some(KdlNodeFormat { before_ty_name, .. }) = self.format() {
+                write!(f, "{before_ty_name}")?;
+            }
+            write!(f, "{ty}")?;
+            if let Some(KdlNodeFormat { after_ty_name, .. }) = self.format() {
+                write!(f, "{after_ty_name}")?;
+            }
+            write!(f, ")")?;
+        }
+        if let Some(KdlNodeFormat { after_ty, .. }) = self.format() {
+            write!(f, "{after_ty}")?;
         }
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
-- 
2.43.0


From 930acccf30880ebba72149a03f2e836ac31b34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 02/41] fix: keep the whitespace that follows a node's children
 block

---
 src/v2_parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3551732..03678ff 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -403,7 +403,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     .parse_next(input)?;
     let (before_terminator, terminator) = if children.is_some() {
         (
-            opt(slashdashed_children).take(),
+            (opt(slashdashed_children), node_space0).take(),
             peek(opt(node_terminator).take()),
         )
             .parse_next(input)?
@@ -414,7 +414,6 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
         )
             .parse_next(input)?
     };
-    node_space0.parse_next(input)?;
     let (before_inner_ty, ty, after_inner_ty) = ty.unwrap_or_default();
     let (before_children, children) = children
         .map(|(before_children, children)| (before_children.into(), Some(children)))
-- 
2.43.0


From c9391e0772ba8c30fab159d873ab1c2ed8a8e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 03/41] fix: parse the terminator of a slashdashed node

---
 src/v2_parser.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 03678ff..6a43544 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -280,7 +280,7 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let mut leading = repeat(0.., alt((line_space, slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -293,7 +293,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
     opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let trailing = repeat(0.., alt((line_space, slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -318,6 +318,16 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     })
 }
 
+fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
+    (
+        slashdash,
+        base_node,
+        alt((node_terminator, peek("}").void(), eof.void())),
+    )
+        .void()
+        .parse_next(input)
+}
+
 /// base-node := slashdash? type? node-space* string
 ///      (node-space+ slashdash? node-prop-or-arg)*
 ///      (node-space+ slashdash node-children)*
@@ -327,7 +337,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let leading = repeat(0.., alt((line_space, slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
-- 
2.43.0


From 30f5b7b9d223d09b2422d1f77fa6ed4cc6af92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 04/41] fix: reject U+007F as a literal code point

---
 src/v2_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 6a43544..be67ee7 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1586,6 +1586,7 @@ pub(crate) fn is_disallowed_unicode(c: char) -> bool {
     matches!(c,
         '\u{0000}'..='\u{0008}'
         | '\u{000E}'..='\u{001F}'
+        | '\u{007F}'
         | '\u{200E}'..='\u{200F}'
         | '\u{202A}'..='\u{202E}'
         | '\u{2066}'..='\u{2069}'
-- 
2.43.0


From 58ed0192f5cddb064a8516220ca0b6c455625f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 05/41] fix: allow a multi-line raw string whose body is a
 single quote

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index be67ee7..5991964 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1372,7 +1372,7 @@ fn raw_string(input: &mut Input<'_>) -> PResult<KdlValue> {
         "\"".context(cx().lbl("raw string closing quotes"))
     };
     cut_err((closing_quotes, &hashes[..])).parse_next(input)?;
-    if body == "\"" {
+    if !is_multiline && body == "\"" {
         Err(ErrMode::Cut(KdlParseError {
             message: Some("Single-line raw strings cannot look like multi-line ones".into()),
             span: Some((_start_loc..input.previous_token_end()).into()),
-- 
2.43.0


From a59e29ae1d1cfe4741019d264c2c67e503ab199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 06/41] fix: accept floats whose digits do not fit an integer

---
 src/v2_parser.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 5991964..7bf2764 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1772,31 +1772,44 @@ fn float_value(input: &mut Input<'_>) -> PResult<KdlValue> {
     float.map(KdlValue::Float).parse_next(input)
 }
 
+fn digits(input: &mut Input<'_>) -> PResult<()> {
+    (
+        digit1,
+        repeat(
+            0..,
+            alt(("_", take_while(1.., AsChar::is_dec_digit).take())),
+        )
+        .map(|()| ()),
+    )
+        .void()
+        .parse_next(input)
+}
+
 fn float<T: ParseFloat>(input: &mut Input<'_>) -> PResult<T> {
     (
         alt((
             (
-                decimal::<i128>,
+                (signum, digits),
                 opt(preceded(
                     '.',
                     cut_err(
-                        udecimal::<i128>.context(
+                        digits.context(
                             cx().msg("Non-digit character found after the '.' of a float"),
                         ),
                     ),
                 )),
                 Caseless("e"),
                 opt(one_of(['-', '+'])),
-                cut_err(udecimal::<i128>.context(
+                cut_err(digits.context(
                     cx().msg("Non-digit character found in the exponent part of a float").hlp("Floats with exponent parts should look like '2.0e123', or '43.3E-4'."),
                 )),
             )
                 .take(),
             (
-                decimal::<i128>,
+                (signum, digits),
                 '.',
                 cut_err(
-                    udecimal::<i128>
+                    digits
                         .context(cx().msg("Non-digit character found after the '.' of a float")),
                 ),
             )
-- 
2.43.0


From 07ac3e3a66c22233afeaba5b6e270d50fbd6bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 07/41] fix: parse the most negative 128-bit integer

---
 src/v2_parser.rs | 126 ++++++++++++-----------------------------------
 1 file changed, 32 insertions(+), 94 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 7bf2764..2e645d1 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -5,7 +5,6 @@ use std::{
 
 use miette::{Severity, SourceSpan};
 
-use num_traits::CheckedMul;
 use winnow::{
     LocatingSlice,
     ascii::{Caseless, digit1, hex_digit1, oct_digit1},
@@ -164,20 +163,6 @@ impl<'a> FromExternalError<Input<'a>, ParseFloatError> for KdlParseError {
     }
 }
 
-struct NegativeUnsignedError;
-
-impl<'a> FromExternalError<Input<'a>, NegativeUnsignedError> for KdlParseError {
-    fn from_external_error(_input: &Input<'a>, _e: NegativeUnsignedError) -> Self {
-        Self {
-            span: None,
-            message: Some("Tried to parse a negative number as an unsigned integer".into()),
-            label: Some("negative unsigned int".into()),
-            help: None,
-            severity: Some(Severity::Error),
-        }
-    }
-}
-
 impl<I: Stream + Location> FromRecoverableError<I, Self> for KdlParseError {
     #[inline]
     fn from_recoverable_error(
@@ -1864,17 +1849,10 @@ fn integer_value(input: &mut Input<'_>) -> PResult<KdlValue> {
 }
 
 /// Non-float decimal
-fn decimal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn decimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    udecimal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    let sign = if positive { "" } else { "-" };
+    udecimal(input, sign)
 }
 
 #[cfg(test)]
@@ -1887,7 +1865,7 @@ fn decimal_test() {
 }
 
 /// `integer := digit (digit | '_')*`
-fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn udecimal<T: FromStrRadix>(input: &mut Input<'_>, sign: &str) -> PResult<T> {
     (
         digit1,
         repeat(
@@ -1896,26 +1874,22 @@ fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     )
         .try_map(|(l, r): (&str, Vec<&str>)| {
-            T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 10)
+            T::from_str_radix(
+                &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+                10,
+            )
         })
         .parse_next(input)
 }
 
 /// `hex := sign? '0x' hex-digit (hex-digit | '_')*`
-fn hex<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn hex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    uhex::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    let sign = if positive { "" } else { "-" };
+    uhex(input, sign)
 }
 
-fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uhex<T: FromStrRadix>(input: &mut Input<'_>, sign: &str) -> PResult<T> {
     alt(("0x", "0X")).parse_next(input)?;
     cut_err((
         hex_digit1,
@@ -1925,7 +1899,10 @@ fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     ))
     .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 16)
+        T::from_str_radix(
+            &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+            16,
+        )
     })
     .context(cx().lbl("hexadecimal"))
     .parse_next(input)
@@ -1958,20 +1935,13 @@ fn test_hex() {
 }
 
 /// `octal := sign? '0o' [0-7] [0-7_]*`
-fn octal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn octal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    uoctal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    let sign = if positive { "" } else { "-" };
+    uoctal(input, sign)
 }
 
-fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uoctal<T: FromStrRadix>(input: &mut Input<'_>, sign: &str) -> PResult<T> {
     alt(("0o", "0O")).parse_next(input)?;
     cut_err((
         oct_digit1,
@@ -1981,7 +1951,10 @@ fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     ))
     .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 8)
+        T::from_str_radix(
+            &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+            8,
+        )
     })
     .context(cx().lbl("octal"))
     .parse_next(input)
@@ -1997,25 +1970,21 @@ fn test_octal() {
 }
 
 /// `binary := sign? '0b' ('0' | '1') ('0' | '1' | '_')*`
-fn binary<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn binary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    ubinary::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    let sign = if positive { "" } else { "-" };
+    ubinary(input, sign)
 }
 
-fn ubinary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn ubinary<T: FromStrRadix>(input: &mut Input<'_>, sign: &str) -> PResult<T> {
     alt(("0b", "0B")).parse_next(input)?;
     cut_err(
         (alt(("0", "1")), repeat(0.., alt(("0", "1", "_")))).try_map(
             move |(x, xs): (&str, Vec<&str>)| {
-                T::from_str_radix(&format!("{x}{}", str::replace(&xs.join(""), "_", "")), 2)
+                T::from_str_radix(
+                    &format!("{sign}{x}{}", str::replace(&xs.join(""), "_", "")),
+                    2,
+                )
             },
         ),
     )
@@ -2072,34 +2041,6 @@ impl_from_str_radix!(
     i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize
 );
 
-trait MaybeNegatable: CheckedMul {
-    fn negated(&self) -> Option<Self>;
-}
-
-macro_rules! impl_negatable_signed {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    Some(self * -1)
-                }
-            }
-        )*
-    };
-}
-
-macro_rules! impl_negatable_unsigned {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    None
-                }
-            }
-        )*
-    };
-}
-
 trait ParseFloat {
     fn parse_float(input: &str) -> Result<Self, ParseFloatError>
     where
@@ -2117,9 +2058,6 @@ impl ParseFloat for f64 {
     }
 }
 
-impl_negatable_signed!(i8, i16, i32, i64, i128, isize);
-impl_negatable_unsigned!(u8, u16, u32, u64, u128, usize);
-
 #[cfg(test)]
 mod failure_tests {
     use miette::Severity;
-- 
2.43.0


From f531fd7ed7f34c9c9fb4fe691b04d0a3f4d0311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 08/41] fix: escape characters a quoted string cannot hold
 literally

---
 src/value.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/value.rs b/src/value.rs
index 50853c0..b96856b 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -191,6 +191,14 @@ impl KdlValue {
                     '\t' => write!(f, "\\t")?,
                     '\u{08}' => write!(f, "\\b")?,
                     '\u{0C}' => write!(f, "\\f")?,
+                    // These can't be written literally inside a quoted string.
+                    _ if crate::v2_parser::is_disallowed_unicode(char)
+                        || crate::v2_parser::NEWLINES
+                            .iter()
+                            .any(|nl| nl.contains(char)) =>
+                    {
+                        write!(f, "\\u{{{:x}}}", u32::from(char))?
+                    }
                     _ => write!(f, "{char}")?,
                 }
             }
-- 
2.43.0


From 545aee241147e8048d00919719d4cb3e29709cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 09/41] fix: quote strings that start with a sign, a dot and a
 digit

---
 src/value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value.rs b/src/value.rs
index b96856b..15cce58 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -161,6 +161,9 @@ pub(crate) fn is_plain_ident(ident: &str) -> bool {
         && ident_bytes.first().map(|c| c.is_ascii_digit()) != Some(true)
         && !(ident.chars().next().map(|c| matches!(c, '.' | '-' | '+')) == Some(true)
             && ident_bytes.get(1).map(|c| c.is_ascii_digit()) == Some(true))
+        && !(matches!(ident_bytes.first(), Some(b'-' | b'+'))
+            && ident_bytes.get(1) == Some(&b'.')
+            && ident_bytes.get(2).map(|c| c.is_ascii_digit()) == Some(true))
         && ident != "inf"
         && ident != "-inf"
         && ident != "nan"
-- 
2.43.0


From d2ae900772fa517eee841d58bcb27d4566493d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 10/41] fix: remove a property by name whatever its written
 form

---
 src/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 0f9d915..148bed7 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -705,7 +705,9 @@ impl KdlNode {
         match key {
             NodeKey::Key(key) => {
                 for (idx, entry) in self.entries.iter().enumerate() {
-                    if entry.name.is_some() && entry.name.as_ref() == Some(&key) {
+                    if entry.name.is_some()
+                        && entry.name.as_ref().map(|i| i.value()) == Some(key.value())
+                    {
                         return Some(self.entries.remove(idx));
                     }
                 }
-- 
2.43.0


From 950816f774e2dfb5976739e32c4e8a9cc56681b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 11/41] fix: end a node printed without format with a newline

---
 src/node.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 148bed7..7dcd60b 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -891,6 +891,8 @@ impl KdlNode {
         }) = self.format()
         {
             write!(f, "{before_terminator}{terminator}{trailing}")?;
+        } else {
+            writeln!(f)?;
         }
         Ok(())
     }
-- 
2.43.0


From 3b9260bc022c1c73ef3b331a3b3714364033457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 12/41] fix: do not recurse once per character of a multi-line
 comment

---
 src/v2_parser.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 2e645d1..922dae6 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1679,19 +1679,9 @@ fn multi_line_comment(input: &mut Input<'_>) -> PResult<()> {
 
 /// `commented-block := '*/' | (multi-line-comment | '*' | '/' | [^*/]+) commented-block`
 fn commented_block(input: &mut Input<'_>) -> PResult<()> {
-    alt((
-        "*/".void(),
-        preceded(
-            alt((
-                multi_line_comment,
-                "*".void(),
-                "/".void(),
-                repeat(1.., none_of(['*', '/'])).map(|()| ()),
-            )),
-            commented_block,
-        ),
-    ))
-    .parse_next(input)
+    repeat_till(0.., alt((multi_line_comment, any.void())), "*/")
+        .map(|((), _)| ())
+        .parse_next(input)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0ad382b27ed7bfbe051f4cfe6cef316427a6ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 13/41] fix: do not recurse once per unexpected end of document

---
 src/v2_parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 922dae6..8e64f8c 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -244,18 +244,19 @@ fn new_input(s: &str) -> Input<'_> {
 
 /// `document := bom? nodes`
 pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let bom = opt(bom.take()).parse_next(input)?;
+    let bom_text = opt(bom.take()).parse_next(input)?;
     let mut doc = nodes.parse_next(input)?;
-    let badend = resume_after_cut(
+    while resume_after_cut(
         cut_err(eof).context(cx().lbl("EOF").msg("Expected end of document")),
         any.void(),
     )
     .parse_next(input)?
-    .is_none();
-    if badend {
-        document.parse_next(input)?;
+    .is_none()
+    {
+        // Keep going after the unexpected text, to report further errors.
+        (opt(bom), nodes).parse_next(input)?;
     }
-    if let Some(bom) = bom
+    if let Some(bom) = bom_text
         && let Some(fmt) = doc.format_mut()
     {
         fmt.leading = format!("{bom}{}", fmt.leading);
-- 
2.43.0


From c724142fa58208c9a1bd49f918af96d1014fce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 14/41] fix: require a terminator before a trailing slashdashed
 node

---
 src/v2_parser.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 8e64f8c..4bcc8b8 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -278,11 +278,15 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     )
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
-    opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space, slashdashed_node)))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let terminated = opt(node_terminator).parse_next(input)?.is_some();
+    let trailing = if terminated || ns.is_empty() {
+        repeat(0.., alt((line_space, slashdashed_node)))
+            .map(|()| ())
+            .take()
+            .parse_next(input)?
+    } else {
+        ""
+    };
 
     // If there is a node, let it have the leading format
     // This gives more consistent behavior
-- 
2.43.0


From fd6c5f5802588c11e375058eb52e3f5ea0bfa3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 15/41] fix: keep the line breaks of trailing comments when
 autoformatting

---
 src/fmt.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 238fb75..298baef 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -143,9 +143,7 @@ pub(crate) fn autoformat_trailing(decor: &mut String, no_comments: bool) {
         if decor.trim_start() == &decor[..] {
             write!(result, " ").unwrap();
         }
-        for comment in decor.lines() {
-            writeln!(result, "{comment}").unwrap();
-        }
+        writeln!(result, "{decor}").unwrap();
     }
     *decor = result;
 }
-- 
2.43.0


From dce1709adb02e795fd708e2011ace23d9b6acdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 16/41] fix: end a node's trailing comment with a newline when
 autoformatting

---
 src/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node.rs b/src/node.rs
index 7dcd60b..d934320 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -300,6 +300,7 @@ impl KdlNode {
                 && !c.is_whitespace()
             {
                 trailing.insert(0, ' ');
+                trailing.push('\n');
             }
 
             *before_children = " ".into();
-- 
2.43.0


From 8c661528512fe741d485e4c1c5522bad81376c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 17/41] fix: autoformat must not rewrite the lines of
 slashdashed nodes

---
 src/fmt.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 298baef..7453c43 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -115,7 +115,14 @@ pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>
     let mut result = String::new();
     if !config.no_comments {
         let input = leading.trim();
-        if !input.is_empty() {
+        if is_line_sensitive(input) {
+            for _ in 0..config.indent_level {
+                result.push_str(config.indent);
+            }
+            // The first newline may still belong to a line continuation.
+            result.push_str(input);
+            result.push_str("\n\n");
+        } else if !input.is_empty() {
             for line in input.lines() {
                 let trimmed = line.trim();
                 if !trimmed.is_empty() {
@@ -133,6 +140,12 @@ pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>
     *leading = result;
 }
 
+/// Slashdashed nodes can hold line continuations and multi-line strings, whose
+/// lines can't be trimmed or removed one by one.
+fn is_line_sensitive(decor: &str) -> bool {
+    decor.contains("/-") && (decor.contains('\\') || decor.contains("\"\"\""))
+}
+
 pub(crate) fn autoformat_trailing(decor: &mut String, no_comments: bool) {
     if decor.is_empty() {
         return;
-- 
2.43.0


From 303ff90172cebf2e8bf8d932ae80bb58068ed99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 18/41] fix: reject a slashdash that only comments out another
 slashdash

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 4bcc8b8..a12c998 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -603,7 +603,7 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
 }
 
 fn slashdashed_entries(input: &mut Input<'_>) -> PResult<()> {
-    separated(1.., (slashdash, node_entry), node_space1)
+    separated(1.., (slashdash, not("/-"), node_entry), node_space1)
         .map(|()| ())
         .take()
         .map(|x| x.to_string())
-- 
2.43.0


From 2f941ca42f7620ce2fbe11f5c845ab1ea113d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 19/41] fix: keep a byte order mark first when autoformatting

---
 src/fmt.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 7453c43..d5d3917 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -114,7 +114,12 @@ impl<'a> FormatConfigBuilder<'a> {
 pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>) {
     let mut result = String::new();
     if !config.no_comments {
-        let input = leading.trim();
+        let mut input = leading.trim();
+        if let Some(rest) = input.strip_prefix('\u{FEFF}') {
+            // A byte order mark is only allowed at the very start.
+            result.push('\u{FEFF}');
+            input = rest.trim();
+        }
         if is_line_sensitive(input) {
             for _ in 0..config.indent_level {
                 result.push_str(config.indent);
-- 
2.43.0


From 7b1f7632afa2b59e6410acd235be8a21bdad8edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 20/41] fix: clear the type annotation's format recursively

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index d934320..9c619b5 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -140,6 +140,9 @@ impl KdlNode {
     /// children formatting will also be cleared.
     pub fn clear_format_recursive(&mut self) {
         self.clear_format();
+        if let Some(ty) = &mut self.ty {
+            ty.clear_format();
+        }
         self.name.clear_format();
         if let Some(children) = &mut self.children {
             children.clear_format_recursive();
-- 
2.43.0


From c11e61088c3bfddb0cf120afe7004c6c63d0ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 21/41] fix: present an argument's type only to records that
 ask for it

---
 src/de.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 83df6bf..c4f6ed7 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1165,7 +1165,9 @@ impl<'a> NodeMapAccess<'a> {
                 }
                 let idx_name = format!("#{i}");
                 let ty_name = format!("{idx_name}#type");
-                if let Some(ty) = arg.ty() {
+                if let Some(ty) = arg.ty()
+                    && fields.contains(&ty_name.as_ref())
+                {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
                 if fields.contains(&idx_name.as_ref()) {
-- 
2.43.0


From bf40cb51c4a6fc22892c2a708720a97b7e09a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 22/41] fix: present a struct variant's fields like any
 record's

---
 src/de.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index c4f6ed7..da0bf6b 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1433,14 +1433,16 @@ impl<'de, 'a> de::VariantAccess<'de> for NodeVariantAccess<'a> {
 
     fn struct_variant<V: Visitor<'de>>(
         self,
-        _fields: &'static [&'static str],
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        de::Deserializer::deserialize_map(
+        de::Deserializer::deserialize_struct(
             NodeDeserializer {
                 node: self.node,
                 input: self.input,
             },
+            "",
+            fields,
             visitor,
         )
     }
-- 
2.43.0


From 453aa029f626a86e6377029247e904fd516a425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:36 +0000
Subject: [PATCH 23/41] fix: let a node's FromStr fall back to KDL 1 as
 documented

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 9c619b5..7cad38c 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -824,7 +824,7 @@ impl FromStr for KdlNode {
     type Err = KdlError;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
-        v2_parser::try_parse(v2_parser::padded_node, input)
+        Self::parse(input)
     }
 }
 
-- 
2.43.0


From 873ced5b1c22fadba06f40c587b9efd92708689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 24/41] fix: convert strings to KDL 2 without changing their
 value

Empty strings lost their value, and raw strings with backslashes, escaped
slashes and whitespace-only lines became other strings or invalid text.
---
 src/entry.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 93fcef4..f0d8515 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -231,7 +231,7 @@ impl KdlEntry {
                     // convert raw strings to new format
                     let s = s.strip_prefix('r').unwrap_or(s);
 
-                    if crate::value::is_plain_ident(val) {
+                    let repr = if crate::value::is_plain_ident(val) {
                         val.into()
                     } else if s
                         .find(|c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
@@ -259,6 +259,12 @@ impl KdlEntry {
                     } else {
                         // We're all good! Let's move on.
                         s.to_string()
+                    };
+
+                    // If that didn't work out, start over from the value.
+                    match v2_parser::try_parse(v2_parser::string, &repr) {
+                        Ok(Some(KdlValue::String(s))) if s == *val => repr,
+                        _ => format!("{}", self.value),
                     }
                 }
                 // These have `#` prefixes now. The regular Display impl will
-- 
2.43.0


From bb53080d48bc08f7418e3028c02e2585e93caf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 25/41] fix: convert values to KDL 1 without changing them

Multi-line strings, escapes that KDL 1 doesn't have, and integers beyond 64
bits became other values or invalid text.
---
 src/entry.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index f0d8515..ce6c653 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -308,7 +308,7 @@ impl KdlEntry {
                         s.to_string()
                     };
 
-                    if crate::value::is_plain_ident(val)
+                    let repr = if crate::value::is_plain_ident(val)
                         && !s.starts_with('\"')
                         && !s.starts_with("r#")
                     {
@@ -347,6 +347,12 @@ impl KdlEntry {
                     } else {
                         // We're all good! Let's move on.
                         s.to_string()
+                    };
+
+                    // If that didn't work out, start over from the value.
+                    match repr.parse::<kdlv1::KdlEntry>() {
+                        Ok(e) if e.name().is_none() && e.value().as_string() == Some(val) => repr,
+                        _ => kdlv1::KdlValue::String(val.clone()).to_string(),
                     }
                 }
                 // No more # prefix for these
@@ -372,15 +378,15 @@ impl KdlEntry {
                     }),
             )
         } else {
-            let v1_val = match self.value() {
-                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()),
-                KdlValue::Integer(i) => kdlv1::KdlValue::Base10(*i as i64),
-                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f),
-                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b),
-                KdlValue::Null => kdlv1::KdlValue::Null,
+            let value_repr = match self.value() {
+                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()).to_string(),
+                KdlValue::Integer(i) => i.to_string(),
+                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f).to_string(),
+                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b).to_string(),
+                KdlValue::Null => kdlv1::KdlValue::Null.to_string(),
             };
             self.format = Some(KdlEntryFormat {
-                value_repr: v1_val.to_string(),
+                value_repr,
                 leading: " ".into(),
                 ..Default::default()
             })
-- 
2.43.0


From de0bdcfc3d1c60de5a67486cb4dcb4e7d1b762db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:02 +0000
Subject: [PATCH 26/41] fix: convert names and types of entries to KDL 2

---
 src/entry.rs      |  6 ++++++
 src/identifier.rs | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index ce6c653..4c03a53 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -222,6 +222,12 @@ impl KdlEntry {
 
     /// Makes sure this entry is in v2 format.
     pub fn ensure_v2(&mut self) {
+        if let Some(ty) = &mut self.ty {
+            ty.ensure_v2();
+        }
+        if let Some(name) = &mut self.name {
+            name.ensure_v2();
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
diff --git a/src/identifier.rs b/src/identifier.rs
index 49762f6..22a59ae 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -88,6 +88,16 @@ impl KdlIdentifier {
         self.repr = None;
     }
 
+    /// Makes sure this identifier is in v2 format.
+    pub(crate) fn ensure_v2(&mut self) {
+        if let Some(repr) = &self.repr {
+            match v2_parser::try_parse(v2_parser::identifier, repr) {
+                Ok(id) if id.value == self.value => {}
+                _ => self.repr = None,
+            }
+        }
+    }
+
     /// Parses a string into a entry.
     ///
     /// If the `v1-fallback` feature is enabled, this method will first try to
-- 
2.43.0


From a6739cb67c20e3a3ce79f2a93279b53cf2c0e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 27/41] fix: convert names and types to KDL 1

---
 src/entry.rs      |  6 ++++++
 src/identifier.rs | 13 +++++++++++++
 src/node.rs       | 10 ++++------
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 4c03a53..b271446 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -301,6 +301,12 @@ impl KdlEntry {
     /// Makes sure this entry is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
+        if let Some(ty) = &mut self.ty {
+            ty.ensure_v1();
+        }
+        if let Some(name) = &mut self.name {
+            name.ensure_v1();
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
diff --git a/src/identifier.rs b/src/identifier.rs
index 22a59ae..4c8c3b2 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -2,6 +2,8 @@
 use miette::SourceSpan;
 use std::{fmt::Display, str::FromStr};
 
+#[cfg(feature = "v1")]
+use crate::value::is_plain_ident;
 use crate::{KdlError, KdlValue, v2_parser};
 
 /// Represents a KDL
@@ -98,6 +100,17 @@ impl KdlIdentifier {
         }
     }
 
+    /// Makes sure this identifier is in v1 format.
+    #[cfg(feature = "v1")]
+    pub(crate) fn ensure_v1(&mut self) {
+        self.repr = Some(if is_plain_ident(&self.value) {
+            // Fewer characters are allowed in v1 bare identifiers.
+            kdlv1::KdlIdentifier::from(self.value()).to_string()
+        } else {
+            kdlv1::KdlValue::String(self.value.clone()).to_string()
+        });
+    }
+
     /// Parses a string into a entry.
     ///
     /// If the `v1-fallback` feature is enabled, this method will first try to
diff --git a/src/node.rs b/src/node.rs
index 7cad38c..051bb13 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -380,12 +380,10 @@ impl KdlNode {
     /// Makes sure this node is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        self.ty = self.ty.take().map(|ty| {
-            let v1_name: kdlv1::KdlIdentifier = ty.value().into();
-            v1_name.into()
-        });
-        let v1_name: kdlv1::KdlIdentifier = self.name.value().into();
-        self.name = v1_name.into();
+        if let Some(ty) = &mut self.ty {
+            ty.ensure_v1();
+        }
+        self.name.ensure_v1();
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
-- 
2.43.0


From 1c66ca031304836faf02ac27cf7eaf867d453b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 28/41] fix: keep comments and terminators of KDL 1 nodes as
 they were written

---
 src/node.rs | 48 ++++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 051bb13..c796f7d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -397,32 +397,24 @@ impl KdlNode {
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlNode> for KdlNode {
     fn from(value: kdlv1::KdlNode) -> Self {
-        let terminator = value
-            .trailing()
-            .map(|t| if t.contains(';') { ";" } else { "\n" })
-            .unwrap_or("\n");
-        let trailing = value.trailing().map(|t| {
-            if t.contains(';') {
-                t.replace(';', "")
-            } else {
-                let t = t.replace("\r\n", "\n");
-                let t = t
-                    .chars()
-                    .map(|c| {
-                        if v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) {
-                            '\n'
-                        } else {
-                            c
-                        }
-                    })
-                    .collect::<String>();
-                if terminator == ";" {
-                    t
-                } else {
-                    t.replacen('\n', "", 1)
-                }
-            }
-        });
+        // In KDL 1, all text from the last entry up to the end of the
+        // terminator is trailing text, including any comments in it.
+        let trailing = value.trailing().unwrap_or("");
+        let before = if trailing.contains("//") {
+            ""
+        } else {
+            trailing.trim_end().trim_end_matches(';')
+        };
+        let (before_terminator, terminator) = trailing.split_at(before.len());
+        let terminated = terminator.trim_end().ends_with(';')
+            || v2_parser::NEWLINES
+                .iter()
+                .any(|nl| terminator.ends_with(nl));
+        let (before_terminator, terminator) = if terminated {
+            (before_terminator, terminator)
+        } else {
+            (trailing, "\n")
+        };
         KdlNode {
             ty: value.ty().map(|x| x.clone().into()),
             name: value.name().clone().into(),
@@ -434,9 +426,9 @@ impl From<kdlv1::KdlNode> for KdlNode {
                 after_ty_name: "".into(),
                 after_ty: "".into(),
                 before_children: value.before_children().unwrap_or("").into(),
-                before_terminator: "".into(),
+                before_terminator: before_terminator.into(),
                 terminator: terminator.into(),
-                trailing: trailing.unwrap_or_else(|| "".into()),
+                trailing: "".into(),
             }),
             #[cfg(feature = "span")]
             span: SourceSpan::new(value.span().offset().into(), value.span().len()),
-- 
2.43.0


From 63d1824896e8ad6112633dc22b9ae170bf45ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:03 +0000
Subject: [PATCH 29/41] fix: terminate the last node of a document converted to
 KDL 1

---
 src/document.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 300f176..406454e 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -421,12 +421,7 @@ impl KdlDocument {
         let penult = iter.next();
         if let Some(last) = last {
             if let Some(fmt) = last.format_mut() {
-                if !fmt.trailing.contains(';')
-                    && fmt
-                        .trailing
-                        .chars()
-                        .any(|c| crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                {
+                if fmt.terminator.is_empty() {
                     fmt.terminator = ";".into();
                 }
             } else {
-- 
2.43.0


From 2fe98710218b1937df937346f8e530b57e4343e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:09 +0000
Subject: [PATCH 30/41] fix: leave out space that KDL 1 does not allow when
 converting to it

---
 src/entry.rs | 6 ++++++
 src/node.rs  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index b271446..9c00a5b 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -381,6 +381,12 @@ impl KdlEntry {
                     .clone()
                     .map(|mut x| {
                         x.value_repr = value_repr.into();
+                        // There's no space around the parts of an entry in v1.
+                        x.before_ty_name = "".into();
+                        x.after_ty_name = "".into();
+                        x.after_ty = "".into();
+                        x.after_key = "".into();
+                        x.after_eq = "".into();
                         x
                     })
                     .unwrap_or_else(|| KdlEntryFormat {
diff --git a/src/node.rs b/src/node.rs
index c796f7d..ebdecb4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -384,6 +384,12 @@ impl KdlNode {
             ty.ensure_v1();
         }
         self.name.ensure_v1();
+        if let Some(format) = &mut self.format {
+            // There's no space inside or after type annotations in v1.
+            format.before_ty_name = "".into();
+            format.after_ty_name = "".into();
+            format.after_ty = "".into();
+        }
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
-- 
2.43.0


From e81c632743c7bf98260622c5ccb800d5060d5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:33 +0000
Subject: [PATCH 31/41] fix: report LSP lines as the protocol counts them

Ropey counts every Unicode line break (VT, FF, NEL, LS, PS) as a line end,
the LSP only LF, CRLF and CR, so diagnostics after such a character were
reported on a later line.
---
 tools/kdl-lsp/src/main.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 539061c..c5d820c 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -165,16 +165,24 @@ impl LanguageServer for Backend {
 fn byte_to_position(byte_idx: usize, rope: &Rope) -> Position {
     // Clamp the byte position to the end of the buffer. Just in case.
     let byte_idx = byte_idx.min(rope.len_bytes());
-    // Get the correct line for that byte offset
-    let line_idx = rope.byte_to_line(byte_idx);
+    let char_idx = rope.byte_to_char(byte_idx);
+    // Get the correct line for that byte offset. The LSP ends lines at LF, CRLF and CR only, so
+    // Ropey's own line numbers, which go by every Unicode line break, don't do.
+    let mut line_idx = 0u32;
+    let mut line_start = 0usize;
+    for (i, c) in rope.chars().take(char_idx).enumerate() {
+        if c == '\n' || (c == '\r' && rope.get_char(i + 1) != Some('\n')) {
+            line_idx += 1;
+            line_start = i + 1;
+        }
+    }
     // Calculate the correct UTF-16 code unit.
     // The LSP doesn't use characters for columns, but instead for some reason they chose to use
     // UTF-16 code units.
     // If not not explicitly handled as such, passing a UTF-8 char column position would result
     // in a shift of one char backwards per prior 4-byte UTF-16 character in the current line.
-    let col_idx = rope.char_to_utf16_cu(rope.byte_to_char(byte_idx))
-        - rope.char_to_utf16_cu(rope.line_to_char(line_idx));
-    Position::new(line_idx as u32, col_idx as u32)
+    let col_idx = rope.char_to_utf16_cu(char_idx) - rope.char_to_utf16_cu(line_start);
+    Position::new(line_idx, col_idx as u32)
 }
 
 fn to_lsp_sev(sev: miette::Severity) -> DiagnosticSeverity {
-- 
2.43.0


From 2a5d98f1a65742da28b7cf4c4d57dc831b5586fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:43 +0000
Subject: [PATCH 32/41] fix: keep the text of the last change an editor sends

A didChange notification may hold several changes, or none, which panicked.
---
 tools/kdl-lsp/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index c5d820c..537bf11 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -82,8 +82,10 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        self.on_change(params.text_document.uri, &params.content_changes[0].text)
-            .await;
+        // Changes apply in order, and each holds the full text, so the last one stands.
+        if let Some(change) = params.content_changes.last() {
+            self.on_change(params.text_document.uri, &change.text).await;
+        }
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-- 
2.43.0


From 1b2eb19974080ec3739b88adaee0cb50d45cdb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 33/41] fix: let an optional field ask for a type annotation

IdentDeserializer showed every visitor a string, which an Option does not take.
---
 src/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index da0bf6b..9e85deb 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -426,6 +426,10 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
         self.annotate(visitor.visit_str(self.ident.value()))
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_newtype_struct<V: Visitor<'de>>(
         self,
         _name: &'static str,
@@ -446,7 +450,7 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
         bytes byte_buf unit unit_struct seq tuple
-        tuple_struct map struct option identifier ignored_any
+        tuple_struct map struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From a8ce9c817a7ca1650ab9c468a18716d19a1a3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 34/41] fix: leave a field out for its value, not for its first
 argument

---
 src/se.rs | 79 +++++++++++++++++++++----------------------------------
 1 file changed, 30 insertions(+), 49 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 920527a..b985308 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -396,14 +396,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
         value: &T,
     ) -> Result<(), Self::Error> {
         let mut node = KdlNode::new(key);
-        serialize_value_into_node(&mut node, value)?;
-        match node.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                self.nodes.push(node);
-            }
+        if !serialize_value_into_node(&mut node, value)? {
+            self.nodes.push(node);
         }
         Ok(())
     }
@@ -452,16 +446,10 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
             node.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
             let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
+            let omit = serialize_value_into_node(&mut child, value)?;
             let children = node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if !omit {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -477,20 +465,30 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
 
 /// Serializes a value into a node, adding it as an argument, or as children
 /// if the value is complex (struct/map/seq).
+///
+/// Returns whether the value is a plain `false` or null, which a field says by
+/// being left out.
 fn serialize_value_into_node<T: ?Sized + Serialize>(
     node: &mut KdlNode,
     value: &T,
-) -> Result<(), Error> {
-    let mut ser = NodeValueSerializer { node };
-    value.serialize(&mut ser)
+) -> Result<bool, Error> {
+    let mut ser = NodeValueSerializer {
+        node,
+        omittable: false,
+    };
+    value.serialize(&mut ser)?;
+    Ok(ser.omittable)
 }
 
 /// Serializer that writes into a KdlNode.
 struct NodeValueSerializer<'a> {
     node: &'a mut KdlNode,
+
+    /// Whether a plain `false` or null was written.
+    omittable: bool,
 }
 
-impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
+impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'_> {
     type Ok = ();
     type Error = Error;
 
@@ -503,6 +501,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     type SerializeStructVariant = NodeChildStructVariantSerializer<'a>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
+        self.omittable = !v;
         self.node.entries_mut().push(KdlEntry::new(v));
         Ok(())
     }
@@ -569,6 +568,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
+        self.omittable = true;
         self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
         Ok(())
     }
@@ -578,6 +578,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
+        self.omittable = true;
         self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
         Ok(())
     }
@@ -774,16 +775,9 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
             .take()
             .ok_or_else(|| ser::Error::custom("serialize_value without serialize_key"))?;
         let mut child = KdlNode::new(key);
-        let mut child_ser = NodeValueSerializer { node: &mut child };
-        value.serialize(&mut child_ser)?;
-        match child.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                let children = self.node.ensure_children();
-                children.nodes_mut().push(child);
-            }
+        if !serialize_value_into_node(&mut child, value)? {
+            let children = self.node.ensure_children();
+            children.nodes_mut().push(child);
         }
         Ok(())
     }
@@ -821,16 +815,10 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
             self.node.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
             let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
+            let omit = serialize_value_into_node(&mut child, value)?;
             let children = self.node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if !omit {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -875,15 +863,8 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
             let kdl_val = to_kdl_value(value)?;
             self.parent.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
-            let mut child_ser = NodeValueSerializer { node: &mut node };
-            value.serialize(&mut child_ser)?;
-            match node.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    self.children.nodes_mut().push(node);
-                }
+            if !serialize_value_into_node(&mut node, value)? {
+                self.children.nodes_mut().push(node);
             }
         }
         Ok(())
-- 
2.43.0


From 09696431730ac646850b5d3210f885faffc333a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 35/41] fix: keep an optional field that holds false

---
 src/se.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/se.rs b/src/se.rs
index b985308..7cb5fd8 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -574,7 +574,10 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'_> {
     }
 
     fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
+        value.serialize(&mut *self)?;
+        // A missing node would be `None`.
+        self.omittable = false;
+        Ok(())
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From eaec9754477c3f64581cd037fb435fd2f9ac6846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 36/41] fix: keep the map entries that hold false or null

---
 src/se.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 7cb5fd8..64c8c4e 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -778,10 +778,9 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
             .take()
             .ok_or_else(|| ser::Error::custom("serialize_value without serialize_key"))?;
         let mut child = KdlNode::new(key);
-        if !serialize_value_into_node(&mut child, value)? {
-            let children = self.node.ensure_children();
-            children.nodes_mut().push(child);
-        }
+        serialize_value_into_node(&mut child, value)?;
+        let children = self.node.ensure_children();
+        children.nodes_mut().push(child);
         Ok(())
     }
 
-- 
2.43.0


From 0c7ea6c5362b21885a33a335c12f3bde125ca0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:25 +0000
Subject: [PATCH 37/41] fix: read a document as a tuple

---
 src/de.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 9e85deb..632d9f5 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -597,6 +597,23 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         })
     }
 
+    fn deserialize_tuple<V: Visitor<'de>>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         if self.doc.nodes().is_empty() {
             visitor.visit_none()
@@ -652,8 +669,8 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         i64 i128 u8 u16
         u32 u64 u128 f32
         f64 char str string
-        bytes byte_buf tuple
-        tuple_struct identifier ignored_any
+        bytes byte_buf
+        identifier ignored_any
     }
 }
 
-- 
2.43.0


From d4994991847b82abcf3ffedc757af3b910c87045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:14 +0000
Subject: [PATCH 38/41] fix: restore omitted units and wrapped booleans

---
 src/de.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 632d9f5..c1a7172 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1376,9 +1376,38 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
         visitor.visit_none()
     }
 
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
+    fn deserialize_unit_struct<V>(
+        self,
+        _: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct tuple newtype_struct seq
+        bytes byte_buf tuple seq
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From b2d98cc1f645e7f18abc2efb7078a107ddeb0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:18 +0000
Subject: [PATCH 39/41] fix: read repeated nodes as an optional or wrapped list

---
 src/de.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index c1a7172..282e7c5 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1102,9 +1102,21 @@ impl<'de, 'a> de::Deserializer<'de> for NodeGroupDeserializer<'a> {
         })
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct tuple
+        bytes byte_buf unit unit_struct tuple
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From e9c9e9c6afd0b94198a2b11f3f8f5902dfac0417 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:02:56 +0000
Subject: [PATCH 40/41] fix: a document-level struct variant keeps its fields

---
 src/se.rs | 288 ++----------------------------------------------------
 1 file changed, 9 insertions(+), 279 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 64c8c4e..c47d95a 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -35,7 +35,7 @@
 //! (de)serialization model.
 
 use serde::ser::{self, Serialize};
-use std::{collections::HashSet, fmt};
+use std::fmt;
 
 use crate::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 
@@ -289,9 +289,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(StructVariantSerializer {
             parent_nodes: &mut self.doc.nodes,
-            variant,
-            children: KdlDocument::new(),
-            used_indices: Default::default(),
+            node: KdlNode::new(variant),
         })
     }
 }
@@ -409,9 +407,7 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
 
 struct StructVariantSerializer<'a> {
     parent_nodes: &'a mut Vec<KdlNode>,
-    variant: &'static str,
-    used_indices: HashSet<usize>,
-    children: KdlDocument,
+    node: KdlNode,
 }
 
 impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
@@ -423,42 +419,15 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            node.entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            let mut ser = RestSerializer {
-                node: &mut node,
-                used_indices: &self.used_indices,
-            };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            let idx: usize = key.strip_prefix('#').unwrap().parse().map_err(|e| Error {
-                msg: format!("Failed to parse index rename {key}: {e}"),
-            })?;
-            self.used_indices.insert(idx);
-            let kdl_val = to_kdl_value(value)?;
-            node.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child = KdlNode::new(key);
-            let omit = serialize_value_into_node(&mut child, value)?;
-            let children = node.ensure_children();
-            if !omit {
-                children.nodes_mut().push(child);
-            }
-        }
-        Ok(())
+        let mut fields = NodeChildMapSerializer {
+            node: &mut self.node,
+            current_key: None,
+        };
+        ser::SerializeStruct::serialize_field(&mut fields, key, value)
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
-        self.parent_nodes.push(node);
+        self.parent_nodes.push(self.node);
         Ok(())
     }
 }
@@ -1246,245 +1215,6 @@ impl ser::Serializer for KdlValueSerializer {
     }
 }
 
-struct RestSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-}
-
-impl<'a> ser::Serializer for &'a mut RestSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    type SerializeSeq = RestSeqSerializer<'a>;
-    type SerializeTuple = RestSeqSerializer<'a>;
-    type SerializeTupleStruct = RestSeqSerializer<'a>;
-    type SerializeTupleVariant = ser::Impossible<(), Error>;
-    type SerializeMap = ser::Impossible<(), Error>;
-    type SerializeStruct = ser::Impossible<(), Error>;
-    type SerializeStructVariant = ser::Impossible<(), Error>;
-
-    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Ok(RestSeqSerializer {
-            node: self.node,
-            used_indices: self.used_indices,
-            current_idx: 0,
-        })
-    }
-
-    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_tuple_struct(
-        self,
-        _: &'static str,
-        len: usize,
-    ) -> Result<Self::SerializeTupleStruct, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(v));
-        Ok(())
-    }
-
-    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_f64(v as f64)
-    }
-    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Float(v)));
-        Ok(())
-    }
-
-    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(&v.to_string())
-    }
-
-    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::String(v.to_string())));
-        Ok(())
-    }
-
-    fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "bytes cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
-        self.serialize_unit()
-    }
-
-    fn serialize_unit_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        variant: &'static str,
-    ) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(variant)
-    }
-
-    fn serialize_newtype_struct<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        value: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_newtype_variant<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "newtype variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        Err(ser::Error::custom(
-            "maps are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct(
-        self,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStruct, Self::Error> {
-        Err(ser::Error::custom(
-            "structs are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "struct variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_tuple_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "tuple variants cannot be represented as KDL arguments",
-        ))
-    }
-}
-
-struct RestSeqSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-    current_idx: usize,
-}
-
-impl<'a> ser::SerializeSeq for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        if !self.used_indices.contains(&self.current_idx) {
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        }
-        self.current_idx += 1;
-        Ok(())
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
-impl<'a> ser::SerializeTuple for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
-impl<'a> ser::SerializeTupleStruct for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
 struct ArgsSerializer<'a> {
     node: &'a mut KdlNode,
 }
-- 
2.43.0


From e36e9ce8b395fe547be437ce03140dd02407a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:48 +0000
Subject: [PATCH 41/41] fix: nested struct variants keep their argument views

---
 src/se.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index c47d95a..a9591c8 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -815,18 +815,17 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
         if let Some(attr_name) = key.strip_prefix("#@") {
             let kdl_val = to_kdl_value(value)?;
             self.parent
                 .entries_mut()
                 .push(KdlEntry::new_prop(attr_name, kdl_val));
         } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
+            let mut ser = ArgsSerializer { node: self.parent };
             value.serialize(&mut ser)?;
         } else if key == "#rest" {
             // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: &mut node };
+            let mut ser = ArgsSerializer { node: self.parent };
             value.serialize(&mut ser)?;
         } else if key.starts_with("#") {
             // TODO(@zkat): How do we get the ordering here?... This will just
@@ -834,6 +833,7 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
             let kdl_val = to_kdl_value(value)?;
             self.parent.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
+            let mut node = KdlNode::new(key);
             if !serialize_value_into_node(&mut node, value)? {
                 self.children.nodes_mut().push(node);
             }
-- 
2.43.0

