From 1029a7df50f1734f3203cdba521cfd421ce1c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:12 +0000
Subject: [PATCH 01/30] fix: decode \0 and \u{...} escapes in quoted names and
 strings

---
 src/parser/common.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index c79c939..12df11a 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -141,6 +141,15 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
                     'n' => result.push('\n'),
                     't' => result.push('\t'),
                     'r' => result.push('\r'),
+                    '0' => result.push('\0'),
+                    'u' => match unescape_unicode(chars.as_str()) {
+                        Some((unescaped, rest)) => {
+                            result.push(unescaped);
+                            chars = rest.chars();
+                        }
+                        // Not a Unicode escape: just the letter.
+                        None => result.push('u'),
+                    },
                     // For all other characters (especially `"`, `'`, and `\`), we just
                     // push the character.
                     _ => result.push(next),
@@ -152,6 +161,17 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
     result
 }
 
+/// Decodes the `{hex}` part of a `\u{hex}` escape, returning the character it
+/// denotes and the rest of the input, or `None` if it is not a valid escape.
+fn unescape_unicode(s: &str) -> Option<(char, &str)> {
+    let (digits, rest) = s.strip_prefix('{')?.split_once('}')?;
+    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return None;
+    }
+    let code = u32::from_str_radix(digits, 16).ok()?;
+    Some((char::from_u32(code)?, rest))
+}
+
 // A trait for converting a pest::iterators::Pair<Rule> into a Rust type. This
 // is used to convert from the uniformly structured nesting
 // pest::iterators::Pair<Rule> into more structured types.
-- 
2.43.0


From 723fa7a203ac0d97419ce2ac1067084791bc765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:28 +0000
Subject: [PATCH 02/30] fix: reject integer literals that do not fit their type

---
 src/parser/expressions.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f116c0a..6957edf 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -94,7 +94,14 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
 
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
-    let parsed_value: i64 = value.as_str().parse().unwrap();
+    let out_of_range = |typ: &'static str| {
+        MessageParseError::invalid(
+            "int_literal_out_of_range",
+            value.as_span(),
+            format!("Integer literal is out of range for {typ}"),
+        )
+    };
+    let parsed_value: i64 = value.as_str().parse().map_err(|_| out_of_range("i64"))?;
 
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
@@ -102,17 +109,21 @@ fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Messa
     let (lit, nullability, tvar) = match &kind {
         // If no type is provided, we assume i64, Nullability::Required.
         Kind::I8(i) => (
-            LiteralType::I8(parsed_value as i32),
+            LiteralType::I8(i32::from(
+                i8::try_from(parsed_value).map_err(|_| out_of_range("i8"))?,
+            )),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I16(i) => (
-            LiteralType::I16(parsed_value as i32),
+            LiteralType::I16(i32::from(
+                i16::try_from(parsed_value).map_err(|_| out_of_range("i16"))?,
+            )),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I32(i) => (
-            LiteralType::I32(parsed_value as i32),
+            LiteralType::I32(i32::try_from(parsed_value).map_err(|_| out_of_range("i32"))?),
             i.nullability,
             i.type_variation_reference,
         ),
-- 
2.43.0


From 9935fa9209e3249653306f35ab3bc436c5d7aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:05 +0000
Subject: [PATCH 03/30] fix: report dates outside the representable range
 instead of panicking

---
 src/textify/expressions.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index ffca46e..94c11cf 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -115,11 +115,12 @@ pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fm
     write!(w, "&{}", Name(s))
 }
 
-/// Convert days since Unix epoch to date string
-fn days_to_date_string(days: i32) -> String {
+/// Convert days since Unix epoch to date string, or `None` if the date is out
+/// of chrono's representable range.
+fn days_to_date_string(days: i32) -> Option<String> {
     let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Duration::days(days as i64);
-    date.format("%Y-%m-%d").to_string()
+    let date = epoch.checked_add_signed(chrono::Duration::days(days as i64))?;
+    Some(date.format("%Y-%m-%d").to_string())
 }
 
 /// Convert a value in `precision` units, to a `chrono::Duration`.
@@ -318,9 +319,18 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Fp64(f) => write!(w, "{f}"),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
-        LiteralType::Date(days) => {
-            write!(w, "'{}'", escaped(&days_to_date_string(*days)))
-        }
+        LiteralType::Date(days) => match days_to_date_string(*days) {
+            Some(date) => write!(w, "'{}'", escaped(&date)),
+            None => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::invalid(
+                    "LiteralType",
+                    Some("Date"),
+                    format!("date is out of range: {days} days since the Unix epoch"),
+                ))
+            ),
+        },
         #[allow(deprecated)]
         LiteralType::Time(microseconds) => write_precision_literal(
             "Time",
-- 
2.43.0


From bdb3cf295af319a96c002d5d2b45592c635fdb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:52 +0000
Subject: [PATCH 04/30] fix: write floats with a decimal point and reject
 non-finite floats

---
 src/parser/expressions.rs  | 25 ++++++++++++++++++++++---
 src/parser/extensions.rs   | 14 ++++++++++----
 src/textify/expressions.rs | 31 +++++++++++++++++++++++++++++--
 src/textify/extensions.rs  |  3 ++-
 4 files changed, 63 insertions(+), 10 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6957edf..aa1b3dd 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -153,21 +153,40 @@ const UNSIGNED_FLOAT_KIND: Kind = Kind::Fp64(Fp64 {
     nullability: Nullability::Required as i32,
 });
 
+/// Parse a float at its own width, or `None` if it overflows to infinity.
+pub(crate) fn parse_finite<F: FromStr>(text: &str, is_finite: fn(F) -> bool) -> Option<F>
+where
+    F: Copy,
+{
+    text.parse().ok().filter(|value| is_finite(*value))
+}
+
 fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::float);
-    let parsed_value: f64 = value.as_str().parse().unwrap();
+    let out_of_range = |typ: &'static str| {
+        MessageParseError::invalid(
+            "float_literal_out_of_range",
+            value.as_span(),
+            format!("Float literal is out of range for {typ}"),
+        )
+    };
+    let text = value.as_str();
 
     // If no type is provided, we assume fp64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_FLOAT_KIND);
 
     let (lit, nullability, tvar) = match &kind {
         Kind::Fp32(f) => (
-            LiteralType::Fp32(parsed_value as f32),
+            LiteralType::Fp32(
+                parse_finite(text, f32::is_finite).ok_or_else(|| out_of_range("fp32"))?,
+            ),
             f.nullability,
             f.type_variation_reference,
         ),
         Kind::Fp64(f) => (
-            LiteralType::Fp64(parsed_value),
+            LiteralType::Fp64(
+                parse_finite(text, f64::is_finite).ok_or_else(|| out_of_range("fp64"))?,
+            ),
             f.nullability,
             f.type_variation_reference,
         ),
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index ec2fb5e..8bb776b 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -18,7 +18,7 @@ use crate::extensions::{
     AddendumKind, ExtensionArgs, ExtensionColumn, ExtensionValue, InsertError, SimpleExtensions,
     TupleValue,
 };
-use crate::parser::expressions::{FieldIndex, Name};
+use crate::parser::expressions::{FieldIndex, Name, parse_finite};
 use crate::parser::relations::direct_common;
 use crate::parser::structural::IndentedLine;
 use crate::textify::expressions::Reference;
@@ -302,9 +302,15 @@ impl ScopedParsePair for ExtensionValue {
                     Rule::integer => {
                         ExtensionValue::Integer(value_pair.as_str().parse::<i64>().unwrap())
                     }
-                    Rule::float => {
-                        ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
-                    }
+                    Rule::float => ExtensionValue::Float(
+                        parse_finite(value_pair.as_str(), f64::is_finite).ok_or_else(|| {
+                            MessageParseError::invalid(
+                                "ExtensionValue",
+                                value_pair.as_span(),
+                                "Float is out of range for fp64",
+                            )
+                        })?,
+                    ),
                     Rule::boolean => ExtensionValue::Boolean(value_pair.as_str() == "true"),
                     Rule::null => ExtensionValue::Null,
                     _ => panic!(
diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 94c11cf..eade0df 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -42,6 +42,33 @@ pub fn textify_binary<S: Scope, W: fmt::Write>(items: &[u8], ctx: &S, w: &mut W)
     Ok(())
 }
 
+/// Write a floating-point value, always with a decimal point so that it reads
+/// back as a float. Infinities and NaN have no text form.
+pub(crate) fn textify_float<F: fmt::Display, S: Scope, W: fmt::Write>(
+    value: F,
+    is_finite: bool,
+    ctx: &S,
+    w: &mut W,
+) -> fmt::Result {
+    let text = value.to_string();
+    if !is_finite {
+        return write!(
+            w,
+            "{}",
+            ctx.failure(PlanError::invalid(
+                "float",
+                Some("value"),
+                format!("{text} has no literal form"),
+            ))
+        );
+    }
+    w.write_str(&text)?;
+    if !text.contains('.') {
+        w.write_str(".0")?;
+    }
+    Ok(())
+}
+
 /// Write an error token for a literal type that hasn't been implemented yet.
 fn unimplemented_literal<S: Scope, W: fmt::Write>(
     variant: &'static str,
@@ -315,8 +342,8 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Boolean(b) => write!(w, "{b}"),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
-        LiteralType::Fp32(f) => write!(w, "{f}"),
-        LiteralType::Fp64(f) => write!(w, "{f}"),
+        LiteralType::Fp32(f) => textify_float(*f, f.is_finite(), ctx, w),
+        LiteralType::Fp64(f) => textify_float(*f, f.is_finite(), ctx, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => match days_to_date_string(*days) {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 8e731ca..2f48487 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -9,6 +9,7 @@ use std::fmt;
 
 use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
+use crate::textify::expressions::textify_float;
 use crate::textify::foundation::{Scope, Textify};
 use crate::textify::types::{Name, escaped};
 
@@ -38,7 +39,7 @@ impl Textify for ExtensionValue {
         match self {
             ExtensionValue::String(s) => write!(w, "'{}'", escaped(s)),
             ExtensionValue::Integer(i) => write!(w, "{i}"),
-            ExtensionValue::Float(f) => write!(w, "{f}"),
+            ExtensionValue::Float(f) => textify_float(*f, f.is_finite(), ctx, w),
             ExtensionValue::Boolean(b) => write!(w, "{b}"),
             ExtensionValue::Null => write!(w, "null"),
             ExtensionValue::Error(error) => {
-- 
2.43.0


From 32717a91608e370e782bf66ba629bb5c92f87355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:00 +0000
Subject: [PATCH 05/30] fix: report i8 and i16 literals whose stored value is
 out of range

---
 src/textify/expressions.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index eade0df..a864288 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -86,6 +86,23 @@ fn unimplemented_literal<S: Scope, W: fmt::Write>(
     )
 }
 
+/// Write an error token for a literal whose stored value does not fit its type.
+fn out_of_range_literal<S: Scope, W: fmt::Write>(
+    variant: &'static str,
+    ctx: &S,
+    w: &mut W,
+) -> fmt::Result {
+    write!(
+        w,
+        "{}",
+        ctx.failure(PlanError::invalid(
+            "LiteralType",
+            Some(variant),
+            format!("value is out of range for {variant}"),
+        ))
+    )
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum PrecisionFormatError {
     /// `precision` isn't one of the precisions literals support (0, 3, 6, 9, 12).
@@ -340,6 +357,8 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
 ) -> fmt::Result {
     match lit {
         LiteralType::Boolean(b) => write!(w, "{b}"),
+        LiteralType::I8(i) if i8::try_from(*i).is_err() => out_of_range_literal("I8", ctx, w),
+        LiteralType::I16(i) if i16::try_from(*i).is_err() => out_of_range_literal("I16", ctx, w),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
         LiteralType::Fp32(f) => textify_float(*f, f.is_finite(), ctx, w),
-- 
2.43.0


From e2447ff5c9db85d6d4ee851d7ad502dc1e42c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:07 +0000
Subject: [PATCH 06/30] fix: report nested field references instead of dropping
 the nested part

---
 src/textify/expressions.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index a864288..3045d3e 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -662,9 +662,18 @@ impl Textify for FieldReference {
         };
 
         match &ref_type.reference_type {
-            Some(reference_segment::ReferenceType::StructField(s)) => {
+            Some(reference_segment::ReferenceType::StructField(s)) if s.child.is_none() => {
                 write!(w, "{}", Reference(s.field))
             }
+            Some(reference_segment::ReferenceType::StructField(_)) => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "ReferenceSegment",
+                    Some("child"),
+                    "ReferenceSegment textification not implemented for nested references",
+                ))
+            ),
             None => write!(
                 w,
                 "{}",
-- 
2.43.0


From e9d1d30e88c5c8543d14e84e2313f8d0166047be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:12 +0000
Subject: [PATCH 07/30] fix: do not panic on unread pairs when a parse error
 propagates

---
 src/parser/common.rs | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 12df11a..1a593f1 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::{fmt, thread};
+use std::fmt;
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -218,21 +218,16 @@ pub(crate) trait ScopedParsePair: Sized {
 }
 
 pub(crate) fn iter_pairs(pair: Pairs<'_, Rule>) -> RuleIter<'_> {
-    RuleIter {
-        iter: pair,
-        done: false,
-    }
+    RuleIter { iter: pair }
 }
 
 pub(crate) struct RuleIter<'a> {
     iter: Pairs<'a, Rule>,
-    // Set to true when done is called, so destructor doesn't panic
-    done: bool,
 }
 
 impl<'a> From<Pairs<'a, Rule>> for RuleIter<'a> {
     fn from(iter: Pairs<'a, Rule>) -> Self {
-        RuleIter { iter, done: false }
+        RuleIter { iter }
     }
 }
 
@@ -306,7 +301,6 @@ impl<'a> RuleIter<'a> {
     }
 
     pub(crate) fn done(mut self) {
-        self.done = true;
         // A rule may end with the `EOI` marker to force full input consumption
         // (e.g. `virtual_read_relation`). That marker carries no data, so it is
         // not leftover content — skip it before asserting the iterator is empty.
@@ -318,20 +312,6 @@ impl<'a> RuleIter<'a> {
     }
 }
 
-/// Make sure that the iterator was completely consumed when the iterator is
-/// dropped - that we didn't leave any partially-parsed tokens.
-///
-/// This is not strictly necessary, but it's a good way to catch bugs.
-impl Drop for RuleIter<'_> {
-    fn drop(&mut self) {
-        if self.done || thread::panicking() {
-            return;
-        }
-        // If the iterator is not done, something probably went wrong.
-        assert_eq!(self.iter.next(), None);
-    }
-}
-
 /// A collection of named arguments (`name=value` pairs) extracted from a
 /// named-argument-list rule, keyed by name with duplicate-name rejection.
 pub(crate) struct ParsedNamedArgs<'a> {
-- 
2.43.0


From 03c2a0a1860e9b268791c30fbcbe074605e612c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 08/30] fix: reject out-of-range integers and trailing text in
 declarations instead of panicking

---
 src/parser/common.rs     | 50 +++++++++++++++++++++++++++++++++++++++-
 src/parser/extensions.rs |  4 +++-
 src/parser/structural.rs |  6 ++++-
 3 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 1a593f1..40f74e7 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -190,13 +190,61 @@ pub(crate) trait ParsePair: Sized {
     fn parse_str(s: &str) -> Result<Self, MessageParseError> {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
-        assert_eq!(pairs.as_str(), s);
         let pair = pairs.next().unwrap();
         assert_eq!(pairs.next(), None);
+        check_complete(Self::message(), s, &pair)?;
+        check_integers(Self::message(), &pair)?;
         Ok(Self::parse_pair(pair))
     }
 }
 
+/// Check that `pair` covers all of the `input` it was parsed from.
+pub(crate) fn check_complete(
+    message: &'static str,
+    input: &str,
+    pair: &Pair<Rule>,
+) -> Result<(), MessageParseError> {
+    let end = pair.as_span().end();
+    match Span::new(input, end, input.len()) {
+        Some(rest) if !rest.as_str().is_empty() => Err(MessageParseError::invalid(
+            message,
+            rest,
+            format!("Unexpected input: {:?}", rest.as_str()),
+        )),
+        _ => Ok(()),
+    }
+}
+
+/// Check that every integer in `pair` fits the field it is stored in, so that
+/// converting it cannot fail: `i32` for field references, `u32` for anchors and
+/// `i64` for everything else.
+pub(crate) fn check_integers(
+    message: &'static str,
+    pair: &Pair<Rule>,
+) -> Result<(), MessageParseError> {
+    let rule = pair.as_rule();
+    for inner in pair.clone().into_inner() {
+        if inner.as_rule() != Rule::integer {
+            check_integers(message, &inner)?;
+            continue;
+        }
+        let text = inner.as_str();
+        let (fits, typ) = match rule {
+            Rule::reference => (text.parse::<i32>().is_ok(), "i32"),
+            Rule::anchor | Rule::urn_anchor => (text.parse::<u32>().is_ok(), "u32"),
+            _ => (text.parse::<i64>().is_ok(), "i64"),
+        };
+        if !fits {
+            return Err(MessageParseError::invalid(
+                message,
+                inner.as_span(),
+                format!("{text} is out of range for {typ}"),
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// A trait for types that are parsed from a `pest::iterators::Pair<Rule>` that
 /// depends on the context - e.g. extension lookups or other contextual
 /// information. This is used for types that are not directly parsed from the
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 8bb776b..268b62b 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -18,6 +18,7 @@ use crate::extensions::{
     AddendumKind, ExtensionArgs, ExtensionColumn, ExtensionValue, InsertError, SimpleExtensions,
     TupleValue,
 };
+use crate::parser::common::{check_complete, check_integers};
 use crate::parser::expressions::{FieldIndex, Name, parse_finite};
 use crate::parser::relations::direct_common;
 use crate::parser::structural::IndentedLine;
@@ -220,8 +221,9 @@ impl SimpleExtensionDeclaration {
             .map_err(|e| {
                 MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
             })?;
-        assert_eq!(pairs.as_str(), s);
         let pair = pairs.next().unwrap();
+        check_complete("SimpleExtensionDeclaration", s, &pair)?;
+        check_integers("SimpleExtensionDeclaration", &pair)?;
         let mut iter = RuleIter::from(pair.into_inner());
 
         let anchor = unwrap_single_pair(iter.pop(Rule::anchor))
diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1fc989a..e215dcf 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -17,7 +17,7 @@ use substrait::proto::{
 use crate::extensions::any::Any;
 use crate::extensions::{AddendumKind, ExtensionRegistry, SimpleExtensions, simple};
 use crate::parser::chunks::ChunkCursor;
-use crate::parser::common::{MessageParseError, ParsePair, ScopedParsePair};
+use crate::parser::common::{MessageParseError, ParsePair, ScopedParsePair, check_integers};
 use crate::parser::errors::{ParseContext, ParseError, ParseResult};
 use crate::parser::expressions::Name;
 use crate::parser::extensions::{
@@ -108,6 +108,8 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none()); // Should be exactly one pair
+        check_integers("planNode", &outer)
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
         let inner = unwrap_single_pair(outer);
 
         Ok(match inner.as_rule() {
@@ -139,6 +141,8 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none());
+        check_integers("top_level_relation", &outer)
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
 
         // top_level_relation is either root_relation or planNode.
         // If planNode, unwrap one more level to obtain the specific relation rule.
-- 
2.43.0


From ba898bb30164df570c6962da18fa1147e15011d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:06 +0000
Subject: [PATCH 09/30] fix: reject text after a relation instead of silently
 dropping it

---
 src/parser/structural.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index e215dcf..bd6f8f0 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -93,6 +93,25 @@ pub enum LineNode<'a> {
     Addendum(Addendum<'a>),
 }
 
+/// Check that nothing but whitespace and a trailing `//` comment follows the
+/// relation parsed from `line`, so that no input is silently dropped.
+fn check_line_complete(
+    message: &'static str,
+    line: &str,
+    pair: &Pair<Rule>,
+) -> Result<(), MessageParseError> {
+    let rest = line[pair.as_span().end()..].trim_start();
+    if rest.is_empty() || (rest.starts_with("//") && !rest.contains('\n')) {
+        return Ok(());
+    }
+    let start = line.len() - rest.len();
+    Err(MessageParseError::invalid(
+        message,
+        pest::Span::new(line, start, line.len()).expect("rest is a suffix of line"),
+        format!("Unexpected input after relation: {rest:?}"),
+    ))
+}
+
 impl<'a> LineNode<'a> {
     pub fn parse(line: &'a str, line_no: i64) -> Result<Self, ParseError> {
         let mut pairs: Pairs<'a, Rule> =
@@ -108,7 +127,8 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none()); // Should be exactly one pair
-        check_integers("planNode", &outer)
+        check_line_complete("planNode", line, &outer)
+            .and_then(|()| check_integers("planNode", &outer))
             .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
         let inner = unwrap_single_pair(outer);
 
@@ -141,7 +161,8 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none());
-        check_integers("top_level_relation", &outer)
+        check_line_complete("top_level_relation", line, &outer)
+            .and_then(|()| check_integers("top_level_relation", &outer))
             .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
 
         // top_level_relation is either root_relation or planNode.
-- 
2.43.0


From 326156219fc93e64f6467074cd616e972b2715c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:11 +0000
Subject: [PATCH 10/30] fix: report the line number of an unknown initial line

---
 src/parser/structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index bd6f8f0..1a2b61c 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1080,8 +1080,8 @@ impl<'a> Parser<'a> {
         match self.state {
             State::Initial => match indented_line {
                 IndentedLine(0, l) if l.trim().is_empty() => Ok(()),
-                IndentedLine(n, l) => Err(ParseError::Initial(
-                    ParseContext::new(n as i64, l.to_string()),
+                IndentedLine(_, l) => Err(ParseError::Initial(
+                    ParseContext::new(line_no, l.to_string()),
                     MessageParseError::invalid(
                         "initial",
                         pest::Span::new(l, 0, l.len()).expect("Invalid span?!"),
-- 
2.43.0


From 5f2f3877f4f6b7b1c097d65f9f8679a179bf4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:51 +0000
Subject: [PATCH 11/30] fix: reject unsupported types with an error instead of
 panicking

---
 src/parser/expression_grammar.pest |  8 ++++----
 src/parser/types.rs                | 24 ++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3518570..117a9bd 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -79,15 +79,12 @@ nullability = { ("?" | "⁉")? }
 // -- Type Expressions --
 // See <https://substrait.io/types/type_classes/>. These must be lowercase.
 simple_type_name = {
+  (
     "boolean"
   | "i8"
   | "i16"
   | "i32"
   | "i64"
-  | "u8"
-  | "u16"
-  | "u32"
-  | "u64"
   | "fp32"
   | "fp64"
   | "string"
@@ -98,6 +95,9 @@ simple_type_name = {
   | "time"
   | "interval_year"
   | "uuid"
+  )
+  // A longer identifier that starts with one of these names is not a simple type.
+  ~ !(ASCII_ALPHANUMERIC | "_")
 }
 
 // A simple native type expression, composed of a name and optional nullability.
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 42efae6..c4db62e 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -98,7 +98,23 @@ impl ScopedParsePair for Parameter {
                     Type::parse_pair(extensions, inner)?,
                 )),
             }),
-            _ => unimplemented!("{:?}", inner.as_rule()),
+            Rule::integer => {
+                let value = inner.as_str().parse().map_err(|_| {
+                    MessageParseError::invalid(
+                        "Parameter",
+                        inner.as_span(),
+                        "integer type parameter is out of range for i64",
+                    )
+                })?;
+                Ok(Parameter {
+                    parameter: Some(proto::r#type::parameter::Parameter::Integer(value)),
+                })
+            }
+            _ => Err(MessageParseError::invalid(
+                "Parameter",
+                inner.as_span(),
+                format!("unsupported type parameter: {}", inner.as_str()),
+            )),
         }
     }
 }
@@ -193,7 +209,11 @@ fn parse_compound_type(
         | Rule::precision_timestamp_type
         | Rule::precision_time_type => parse_precision_type(inner),
         Rule::interval_day_type => parse_interval_day_type(inner),
-        _ => unimplemented!("{:?}", inner.as_rule()),
+        _ => Err(MessageParseError::invalid(
+            "Type",
+            inner.as_span(),
+            format!("unsupported type: {}", inner.as_str()),
+        )),
     }
 }
 
-- 
2.43.0


From a2cb7292dae2f3ff97d8a5906e9864b951aaa213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:51 +0000
Subject: [PATCH 12/30] fix: write user-defined types named like a built-in
 type with their u! prefix

---
 src/textify/types.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/textify/types.rs b/src/textify/types.rs
index db0c8f5..f68deac 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -361,6 +361,37 @@ impl<'a> Textify for Parameters<'a> {
     }
 }
 
+/// Whether the parser reads `name` as the name of a built-in type.
+fn is_builtin_type_name(name: &str) -> bool {
+    const SIMPLE: [&str; 15] = [
+        "boolean",
+        "i8",
+        "i16",
+        "i32",
+        "i64",
+        "fp32",
+        "fp64",
+        "string",
+        "binary",
+        "timestamp_tz",
+        "timestamp",
+        "date",
+        "time",
+        "interval_year",
+        "uuid",
+    ];
+    const COMPOUND: [&str; 7] = [
+        "list",
+        "map",
+        "struct",
+        "precisiontimestamptz",
+        "precisiontimestamp",
+        "precisiontime",
+        "interval_day",
+    ];
+    SIMPLE.contains(&name) || COMPOUND.iter().any(|c| name.eq_ignore_ascii_case(c))
+}
+
 impl Textify for ptype::UserDefined {
     fn name() -> &'static str {
         "UserDefined"
@@ -371,6 +402,12 @@ impl Textify for ptype::UserDefined {
             let name_and_anchor =
                 NamedAnchor::lookup(ctx, ExtensionKind::Type, self.type_reference);
 
+            // Without the prefix, this would read as the built-in type.
+            let prefix = match &name_and_anchor.name.0 {
+                Ok(name) if is_builtin_type_name(name.base()) => "u!",
+                _ => "",
+            };
+
             let param_vec: Vec<Option<Parameter>> = self
                 .type_parameters
                 .iter()
@@ -380,7 +417,7 @@ impl Textify for ptype::UserDefined {
 
             write!(
                 w,
-                "{name_and_anchor}{null}{var}{params}",
+                "{prefix}{name_and_anchor}{null}{var}{params}",
                 name_and_anchor = ctx.display(&name_and_anchor),
                 null = ctx.display(&self.nullability()),
                 var = ctx.display(&TypeVariation(self.type_variation_reference)),
-- 
2.43.0


From 16f23dd67121881d58f0fb2d35576b51f440ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:22 +0000
Subject: [PATCH 13/30] fix: keep the nullability of annotated strings and
 reject other annotations

---
 src/parser/expressions.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index aa1b3dd..6d15b58 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -363,14 +363,16 @@ fn to_string_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Me
                 type_variation_reference: pt.type_variation_reference,
             })
         }
-        _ => {
-            // For other types, treat as string
-            Ok(Literal {
-                literal_type: Some(LiteralType::String(string_value)),
-                nullable: false,
-                type_variation_reference: 0,
-            })
-        }
+        Kind::String(s) => Ok(Literal {
+            literal_type: Some(LiteralType::String(string_value)),
+            nullable: s.nullability != Nullability::Required as i32,
+            type_variation_reference: s.type_variation_reference,
+        }),
+        k => Err(MessageParseError::invalid(
+            "string_literal_type",
+            value.as_span(),
+            format!("Invalid type for string literal: {k:?}"),
+        )),
     }
 }
 
-- 
2.43.0


From 4657f549dcaae90c2d86f29c43cb4a2b3c2518b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 14/30] fix: reject leap seconds and sub-nanosecond digits
 instead of altering the value

---
 src/parser/expressions.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6d15b58..bfd6070 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -2,7 +2,7 @@ use std::fmt::{self, Display, Formatter};
 use std::mem::size_of;
 use std::str::FromStr;
 
-use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
 use pest::Parser as PestParser;
 use pest::iterators::Pair;
 use substrait::proto::aggregate_rel::Measure;
@@ -521,6 +521,35 @@ fn check_supported_precision(
     }
 }
 
+/// Reject what chrono accepts but cannot be stored exactly: leap seconds (which
+/// chrono marks with a nanosecond count of a whole second or more), and
+/// fractional digits beyond nanoseconds (which chrono ignores).
+fn check_exact_seconds(
+    text: &str,
+    nanosecond: u32,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    if nanosecond >= 1_000_000_000 {
+        return Err(MessageParseError::invalid(
+            "precision_literal_leap_second",
+            span,
+            format!("leap seconds are not supported for {literal_kind} literals"),
+        ));
+    }
+    let fraction = text.rsplit_once('.').map_or("", |(_, fraction)| fraction);
+    if fraction.bytes().skip(9).any(|digit| digit != b'0') {
+        return Err(MessageParseError::invalid(
+            "precision_literal_fractional_truncated",
+            span,
+            format!(
+                "value has a fractional component finer than a nanosecond for a {literal_kind} literal"
+            ),
+        ));
+    }
+    Ok(())
+}
+
 /// Parse a timestamp string using chrono to a value in the given precision's units since the Unix epoch.
 fn parse_timestamp_to_precision_units(
     timestamp_str: &str,
@@ -544,6 +573,7 @@ fn parse_timestamp_to_precision_units(
 
     for format in &formats {
         if let Ok(datetime) = NaiveDateTime::parse_from_str(timestamp_str, format) {
+            check_exact_seconds(timestamp_str, datetime.nanosecond(), literal_kind, span)?;
             let epoch = DateTime::from_timestamp(0, 0).unwrap().naive_utc();
             let duration = datetime.signed_duration_since(epoch);
             return duration_to_precision_units(duration, precision, literal_kind, span);
@@ -573,6 +603,7 @@ fn parse_time_to_precision_units(
 
     for format in &formats {
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
+            check_exact_seconds(time_str, time.nanosecond(), literal_kind, span)?;
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
             return duration_to_precision_units(duration, precision, literal_kind, span);
-- 
2.43.0


From 5d5beb7ea80795689f02d98580b16b92227d316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:48 +0000
Subject: [PATCH 15/30] fix: decide a join's direct output by its join type
 when parsing

---
 src/parser/relations.rs  | 103 +++++++++++++++++++++------------------
 src/parser/structural.rs |  41 +++++++++++++---
 src/textify/rels.rs      |  17 +++++--
 3 files changed, 103 insertions(+), 58 deletions(-)

diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 38d9c1c..04a6043 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -1184,58 +1184,67 @@ impl RelationParsePair for JoinRel {
         input_children: Vec<Rel>,
         input_field_count: usize,
     ) -> Result<(Self, usize), MessageParseError> {
-        assert_eq!(pair.as_rule(), Self::rule());
+        parse_join_relation_pair(extensions, pair, input_children, |_| input_field_count)
+    }
+}
 
-        if input_children.len() != 2 {
-            return Err(MessageParseError::invalid(
-                Self::message(),
-                pair.as_span(),
-                format!(
-                    "JoinRel should have exactly 2 input children, got {}",
-                    input_children.len()
-                ),
-            ));
-        }
+/// Parse a `join_relation` pair. `direct_width` gives the number of columns a
+/// join of the given type outputs directly, which decides whether the written
+/// references are the direct output or an explicit emit.
+pub(crate) fn parse_join_relation_pair(
+    extensions: &SimpleExtensions,
+    pair: Pair<Rule>,
+    input_children: Vec<Rel>,
+    direct_width: impl FnOnce(join_rel::JoinType) -> usize,
+) -> Result<(JoinRel, usize), MessageParseError> {
+    assert_eq!(pair.as_rule(), Rule::join_relation);
 
-        let mut children_iter = input_children.into_iter();
-        let left = Box::new(children_iter.next().unwrap());
-        let right = Box::new(children_iter.next().unwrap());
+    if input_children.len() != 2 {
+        return Err(MessageParseError::invalid(
+            "JoinRel",
+            pair.as_span(),
+            format!(
+                "JoinRel should have exactly 2 input children, got {}",
+                input_children.len()
+            ),
+        ));
+    }
 
-        let mut iter = RuleIter::from(pair.into_inner());
-        let join_type = iter.parse_next::<join_rel::JoinType>();
-        let condition = iter.parse_next_scoped::<Expression>(extensions)?;
-        let post_join_filter = iter
-            .try_pop(Rule::join_post_join_filter)
-            .map(|pair| {
-                let expression_pair = unwrap_single_pair(pair);
-                Expression::parse_pair(extensions, expression_pair).map(Box::new)
-            })
-            .transpose()?;
-        let references_pair = iter.pop(Rule::reference_list);
-        iter.done();
+    let mut children_iter = input_children.into_iter();
+    let left = Box::new(children_iter.next().unwrap());
+    let right = Box::new(children_iter.next().unwrap());
 
-        // TODO: For semi/anti joins, the direct output width differs from
-        // left+right — `input_field_count` would misclassify the emit as Direct.
-        // Revisit when those join types are supported.
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
-        let common = RelCommon {
-            emit_kind: Some(emit),
-            ..Default::default()
-        };
+    let mut iter = RuleIter::from(pair.into_inner());
+    let join_type = iter.parse_next::<join_rel::JoinType>();
+    let condition = iter.parse_next_scoped::<Expression>(extensions)?;
+    let post_join_filter = iter
+        .try_pop(Rule::join_post_join_filter)
+        .map(|pair| {
+            let expression_pair = unwrap_single_pair(pair);
+            Expression::parse_pair(extensions, expression_pair).map(Box::new)
+        })
+        .transpose()?;
+    let references_pair = iter.pop(Rule::reference_list);
+    iter.done();
 
-        Ok((
-            JoinRel {
-                common: Some(common),
-                left: Some(left),
-                right: Some(right),
-                expression: Some(Box::new(condition)),
-                post_join_filter,
-                r#type: join_type as i32,
-                advanced_extension: None,
-            },
-            output_count,
-        ))
-    }
+    let (emit, output_count) = parse_emit(references_pair, direct_width(join_type));
+    let common = RelCommon {
+        emit_kind: Some(emit),
+        ..Default::default()
+    };
+
+    Ok((
+        JoinRel {
+            common: Some(common),
+            left: Some(left),
+            right: Some(right),
+            expression: Some(Box::new(condition)),
+            post_join_filter,
+            r#type: join_type as i32,
+            advanced_extension: None,
+        },
+        output_count,
+    ))
 }
 
 impl RelationParsePair for CrossRel {
diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1a2b61c..31fa9e8 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -10,8 +10,8 @@ use pest::Parser as PestParser;
 use pest::iterators::{Pair, Pairs};
 use substrait::proto::extensions::AdvancedExtension;
 use substrait::proto::{
-    AggregateRel, CrossRel, FetchRel, FilterRel, JoinRel, Plan, PlanRel, ProjectRel, ReadRel, Rel,
-    RelRoot, SortRel, Version, plan_rel,
+    AggregateRel, CrossRel, FetchRel, FilterRel, Plan, PlanRel, ProjectRel, ReadRel, Rel, RelRoot,
+    SortRel, Version, plan_rel,
 };
 
 use crate::extensions::any::Any;
@@ -24,9 +24,11 @@ use crate::parser::extensions::{
     AddendumInvocation, ExtensionInvocation, ExtensionParseError, ExtensionParser,
 };
 use crate::parser::relations::{
-    ExtensionReadRel, RelationParsingContext, VirtualReadRel, parse_set_relation_pair,
+    ExtensionReadRel, RelationParsingContext, VirtualReadRel, parse_join_relation_pair,
+    parse_set_relation_pair,
 };
 use crate::parser::{ErrorKind, ExpressionParser, RelationParsePair, Rule, unwrap_single_pair};
+use crate::textify::rels::join_output_width;
 
 pub const PLAN_HEADER: &str = "=== Plan";
 pub const VERSION_HEADER: &str = "=== Version";
@@ -546,7 +548,7 @@ impl<'a> RelationParser<'a> {
             Rule::aggregate_relation => self.parse_rel::<AggregateRel>(extensions, registry, ctx),
             Rule::sort_relation => self.parse_rel::<SortRel>(extensions, registry, ctx),
             Rule::fetch_relation => self.parse_rel::<FetchRel>(extensions, registry, ctx),
-            Rule::join_relation => self.parse_rel::<JoinRel>(extensions, registry, ctx),
+            Rule::join_relation => self.parse_join_relation(extensions, registry, ctx),
             Rule::set_relation => self.parse_set_relation(registry, ctx),
             Rule::cross_relation => self.parse_rel::<CrossRel>(extensions, registry, ctx),
             Rule::extension_relation => self.parse_extension_relation(extensions, registry, ctx),
@@ -576,9 +578,6 @@ impl<'a> RelationParser<'a> {
         let input_field_count: usize = children.iter().map(|c| c.field_count).sum();
         let input_children = into_rels(children);
 
-        // TODO: pass `ParsedChildren` into `parse_pair_with_context`, instead
-        // of this overall 'input_field_count'; for some relations (e.g. a LEFT
-        // SEMI JOIN), the field count sum is not the correct count.
         match T::parse_pair_with_context(extensions, pair, input_children, input_field_count) {
             Ok((parsed, count)) => Ok((parsed.into_rel(advanced_extension), count)),
             Err(e) => Err(ParseError::Plan(
@@ -588,6 +587,34 @@ impl<'a> RelationParser<'a> {
         }
     }
 
+    /// Handle `Join` relations separately from [`parse_rel`](Self::parse_rel)
+    /// because the direct output width depends on the join type and on each
+    /// child's field count individually, not their sum.
+    fn parse_join_relation(
+        &self,
+        extensions: &SimpleExtensions,
+        registry: &ExtensionRegistry,
+        ctx: RelationContext,
+    ) -> Result<(Rel, usize), ParseError> {
+        assert_eq!(ctx.pair.as_rule(), Rule::join_relation);
+        let context = ctx.as_parse_context();
+        let child_field_counts: Vec<usize> = ctx.child_field_counts().collect();
+        let RelationContext {
+            pair,
+            children,
+            addenda,
+            ..
+        } = ctx;
+        let advanced_extension = addenda.into_standard_advanced_extension(registry)?;
+
+        // Exactly two children are checked before the width is asked for.
+        let direct_width =
+            |join_type| join_output_width(join_type, child_field_counts[0], child_field_counts[1]);
+        parse_join_relation_pair(extensions, pair, into_rels(children), direct_width)
+            .map(|(join, count)| (join.into_rel(advanced_extension), count))
+            .map_err(|e| ParseError::Plan(context, e))
+    }
+
     /// Handle `Set` relations separately from [`parse_rel`](Self::parse_rel)
     /// because validating that every input shares the same output width
     /// needs each child's field count individually, not their sum.
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 4020575..e3ec7b3 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -957,12 +957,13 @@ impl<'a> Relation<'a> {
     }
 }
 
-fn join_output_columns(
+/// The number of columns a join of the given type outputs directly.
+pub(crate) fn join_output_width(
     join_type: join_rel::JoinType,
     left_columns: usize,
     right_columns: usize,
-) -> Vec<Value<'static>> {
-    let total_columns = match join_type {
+) -> usize {
+    match join_type {
         // Inner, Left, Right, Outer joins output columns from both sides
         join_rel::JoinType::Inner
         | join_rel::JoinType::Left
@@ -985,7 +986,15 @@ fn join_output_columns(
 
         // Unspecified - fallback to all columns
         join_rel::JoinType::Unspecified => left_columns + right_columns,
-    };
+    }
+}
+
+fn join_output_columns(
+    join_type: join_rel::JoinType,
+    left_columns: usize,
+    right_columns: usize,
+) -> Vec<Value<'static>> {
+    let total_columns = join_output_width(join_type, left_columns, right_columns);
 
     // Output is always a contiguous range starting from $0
     (0..total_columns)
-- 
2.43.0


From 6ac5448ce5a3479ad8ca09e46377808fae164170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:22 +0000
Subject: [PATCH 16/30] fix: report an aggregate measure without a function
 instead of dropping its column

---
 src/textify/rels.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index e3ec7b3..1aa25a0 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -784,9 +784,10 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
-            if let Some(agg_fn) = m.measure.as_ref() {
-                all_outputs.push(Value::AggregateFunction(agg_fn));
-            }
+            let measure = m.measure.as_ref().map(Value::AggregateFunction);
+            all_outputs.push(Value::expect(measure, || {
+                PlanError::invalid("AggregateRel", Some("measures"), "Measure is None")
+            }));
         }
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
-- 
2.43.0


From 441fcc99025c47640c7cca879e2ce59f7025d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:29 +0000
Subject: [PATCH 17/30] fix: parse the &Clustered sort direction that is
 printed

---
 src/parser/common.rs               | 1 +
 src/parser/expression_grammar.pest | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 40f74e7..c64c920 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -425,6 +425,7 @@ pub(crate) fn sort_direction_from_str(
         "AscNullsLast" => Ok(SortDirection::AscNullsLast),
         "DescNullsFirst" => Ok(SortDirection::DescNullsFirst),
         "DescNullsLast" => Ok(SortDirection::DescNullsLast),
+        "Clustered" => Ok(SortDirection::Clustered),
         other => Err(MessageParseError::invalid(
             "SortDirection",
             span,
diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 117a9bd..8c84b35 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -337,7 +337,7 @@ empty = { "_" }
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
 sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
-sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" }
+sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" | "&Clustered" }
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-- 
2.43.0


From a54961d5c2c342ad6432507ea8479b9851d881a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:35 +0000
Subject: [PATCH 18/30] fix: parse the printed form of a sort without sort
 fields

---
 src/parser/expression_grammar.pest | 2 +-
 src/parser/relations.rs            | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 8c84b35..467ef0f 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -335,7 +335,7 @@ empty = { "_" }
 
 // SortRel: Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => ...]
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
-sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
+sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)* | empty)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
 sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" | "&Clustered" }
 
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 04a6043..984c7f3 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -932,6 +932,9 @@ impl RelationParsePair for SortRel {
         let references_pair = iter.pop(Rule::reference_list);
         let mut sorts = Vec::new();
         for sort_field_pair in sort_field_list_pair.into_inner() {
+            if sort_field_pair.as_rule() == Rule::empty {
+                continue;
+            }
             let sort_field = SortField::parse_pair(extensions, sort_field_pair)?;
             sorts.push(sort_field);
         }
-- 
2.43.0


From 8772db9ef5be27dcb1c2a8bf7984a63e5b2f33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:27 +0000
Subject: [PATCH 19/30] fix: quote and unquote extension names and argument
 names that are not identifiers

---
 src/parser/extensions.rs  | 14 +++++---------
 src/textify/addenda.rs    |  2 ++
 src/textify/extensions.rs |  2 +-
 src/textify/rels.rs       |  2 +-
 src/textify/values.rs     |  2 +-
 5 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 268b62b..1ee93bb 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -482,18 +482,14 @@ impl ScopedParsePair for ExtensionInvocation {
 
         // Parse extension name to determine relation type and custom name
         let extension_name_pair = iter.next().unwrap(); // Grammar guarantees extension_name exists
-        let full_extension_name = extension_name_pair.as_str();
 
         // Extract the relation type and custom name from the extension name
         // (e.g., "ExtensionLeaf:ParquetScan" -> "ExtensionLeaf" and "ParquetScan")
-        let (relation_type_str, custom_name) = if full_extension_name.contains(':') {
-            let parts: Vec<&str> = full_extension_name.splitn(2, ':').collect();
-            (parts[0], parts[1].to_string())
-        } else {
-            (full_extension_name, "UnknownExtension".to_string())
-        };
-
-        let relation_kind = ExtensionRelationKind::from_str(relation_type_str).unwrap();
+        let mut name_iter = RuleIter::from(extension_name_pair.into_inner());
+        let relation_type_pair = name_iter.pop(Rule::extension_type);
+        let relation_kind = ExtensionRelationKind::from_str(relation_type_pair.as_str()).unwrap();
+        let custom_name = name_iter.parse_next::<Name>().0;
+        name_iter.done();
         let mut args = ExtensionArgs::default();
 
         // Parse optional arguments
diff --git a/src/textify/addenda.rs b/src/textify/addenda.rs
index 83b0dfe..d2ec46a 100644
--- a/src/textify/addenda.rs
+++ b/src/textify/addenda.rs
@@ -13,6 +13,7 @@ use crate::extensions::any::AnyRef;
 use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs};
 use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::Name;
 
 /// All addenda associated with a relation, in canonical text-format order.
 #[derive(Default)]
@@ -160,6 +161,7 @@ impl Textify for AddendumLine {
                         )))
                     )
                 } else {
+                    let name = Name(name);
                     write!(w, "{indent}+ {prefix}:{name}[{}]", ctx.display(args))
                 }
             }
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 2f48487..32029f2 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -99,7 +99,7 @@ impl Textify for ExtensionArgs {
             if has_args {
                 write!(w, ", ")?;
             }
-            write!(w, "{name}=")?;
+            write!(w, "{}=", Name(name))?;
             value.textify(ctx, w)?;
             has_args = true;
         }
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 1aa25a0..487d186 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -682,7 +682,7 @@ impl<'a> Relation<'a> {
                     .map(Value::ExtColumn)
                     .collect();
                 Relation {
-                    name: Cow::Owned(format!("{}:{}", ext_type, name)),
+                    name: Cow::Owned(format!("{}:{}", ext_type, Name(&name))),
                     arguments: Some(RelationArgs::inline(positional, named)),
                     columns,
                     emit: None,
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 72bc239..1d9820d 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -306,7 +306,7 @@ impl<'a> Textify for NamedArg<'a> {
         "NamedArg"
     }
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}=", self.name)?;
+        write!(w, "{}=", Name(&self.name))?;
         self.value.textify(ctx, w)
     }
 }
-- 
2.43.0


From 6dbefdb1e9ea9cdd8208384f44311f7b5c0cee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:34 +0000
Subject: [PATCH 20/30] fix: reject duplicate named extension arguments instead
 of dropping one

---
 src/parser/extensions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 1ee93bb..12bd572 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -597,9 +597,16 @@ fn extension_args_rule_parsing(
                     let mut arg_iter = arg_pair.into_inner();
                     let name_p = arg_iter.next().unwrap();
                     let value_p = arg_iter.next().unwrap();
+                    let name_span = name_p.as_span();
                     let key = Name::parse_pair(name_p).0.to_string();
                     let val = ExtensionValue::parse_pair(extensions, value_p)?;
-                    args.insert(key, val);
+                    if args.insert(key.as_str(), val).is_some() {
+                        return Err(MessageParseError::invalid(
+                            "extension_named_argument",
+                            name_span,
+                            format!("Duplicate argument: {key}"),
+                        ));
+                    }
                 }
             }
             Rule::empty => {}
-- 
2.43.0


From c02835b82ba69a6dae2bd95d647c6a50ce3974f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:57 +0000
Subject: [PATCH 21/30] fix: parse typed literals as fetch limits and offsets

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 467ef0f..1ac8060 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -341,7 +341,8 @@ sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&D
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-fetch_value          =  { integer | expression }
+// A bare integer, or any expression (which includes a literal with a type).
+fetch_value          =  { integer ~ !(":" | ".") | expression }
 fetch_named_arg      =  { fetch_arg_name ~ sp ~ "=" ~ sp ~ fetch_value }
 fetch_named_arg_list =  { fetch_named_arg ~ (sp ~ "," ~ sp ~ fetch_named_arg)* }
 fetch_args           = _{ fetch_named_arg_list | empty }
-- 
2.43.0


From 2a58218021365c9df68def24a320ffab638a445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:04 +0000
Subject: [PATCH 22/30] fix: parse an aggregate grouped by a cast expression

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 1ac8060..5fa3791 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -324,7 +324,8 @@ aggregate_relation = { "Aggregate" ~ "[" ~ aggregate_group_by ~ sp ~ "=>" ~ sp ~
 
 aggregate_group_by = { grouping_set_list | expression_list }
 grouping_set_list  = { grouping_set ~ sp ~ ("," ~ sp ~ grouping_set)* }
-grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")") | empty }
+// A parenthesis followed by `::` starts a cast expression, not a grouping set.
+grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")" ~ !(sp ~ "::")) | empty }
 expression_list    = { expression ~ sp ~ ("," ~ sp ~ expression)* }
 
 // TODO: Add support for filter invocation, etc.
-- 
2.43.0


From b496938276291a44e56861ee18ce7b94cc45c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:39 +0000
Subject: [PATCH 23/30] fix: parse a call with a signature as an extension
 output column

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 5fa3791..e2ad2b9 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -408,7 +408,8 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 
 // Output columns - can mix named columns, references, and expressions
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
-extension_column  = { named_column | reference | expression }
+// `name:type(` is a call of a function written with its signature, not a column.
+extension_column  = { named_column ~ !(sp ~ ("(" | "#" | "@")) | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
-- 
2.43.0


From c864d700db0ffd6c3fff5df781897649e342cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:45 +0000
Subject: [PATCH 24/30] fix: parse calls of functions named like nullif as
 extension arguments

---
 src/parser/expression_grammar.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index e2ad2b9..40e64b6 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -8,8 +8,9 @@ sp = _{ whitespace* }
 identifier = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 integer    = @{ "-"? ~ ASCII_DIGIT+ }
 float      = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
-boolean    = @{ "true" | "false" }
-null       = @{ "null" }
+// A longer identifier that starts with one of these words is not a literal.
+boolean    = @{ ("true" | "false") ~ !(ASCII_ALPHANUMERIC | "_") }
+null       = @{ "null" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 // Basic string literals, does not handle escape sequences for simplicity here.
 // String literals are for literal values
-- 
2.43.0


From 5ce3705973b335e71c716c1530b1c7f11c194ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:36 +0000
Subject: [PATCH 25/30] fix: reject repeated version fields instead of keeping
 only the last

---
 src/parser/structural.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 31fa9e8..9dbdd2a 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1240,16 +1240,23 @@ impl<'a> Parser<'a> {
             .version
             .as_mut()
             .expect("version is set on entry to the version section");
-        match key.trim() {
-            "producer" => version.producer = value,
-            "git_hash" => version.git_hash = value,
+        let field = match key.trim() {
+            "producer" => &mut version.producer,
+            "git_hash" => &mut version.git_hash,
             other => {
                 return Err(ParseError::ValidationError(
                     ctx(),
                     format!("unknown version field {other:?}, expected 'producer' or 'git_hash'"),
                 ));
             }
+        };
+        if !field.is_empty() {
+            return Err(ParseError::ValidationError(
+                ctx(),
+                format!("duplicate version field {:?}", key.trim()),
+            ));
         }
+        *field = value;
         Ok(())
     }
 
-- 
2.43.0


From c1ec7f94437c48960186ff200783c1ad39aafc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:28 +0000
Subject: [PATCH 26/30] fix: report a missing input relation instead of
 omitting it silently

---
 src/textify/rels.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 487d186..b8f35f0 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -352,14 +352,23 @@ impl Relation<'_> {
     /// Each child is preceded by a newline.
     pub fn write_children<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         let child_scope = ctx.push_indent();
-        for child in self.children.iter().flatten() {
+        for child in &self.children {
             writeln!(w)?;
-            child.textify(&child_scope, w)?;
+            match child {
+                Some(child) => child.textify(&child_scope, w)?,
+                None => write_missing_input(&child_scope, w)?,
+            }
         }
         Ok(())
     }
 }
 
+/// Write an error mark on the line where a required input relation is missing.
+fn write_missing_input<S: Scope, W: fmt::Write>(ctx: &S, w: &mut W) -> fmt::Result {
+    let failure = ctx.failure(PlanError::invalid("Rel", Some("input"), "Input is None"));
+    write!(w, "{}{failure}", ctx.indent())
+}
+
 impl<'a> Relation<'a> {
     pub fn emitted(&self) -> usize {
         match self.emit {
@@ -845,9 +854,10 @@ impl Textify for RelRoot {
             ctx.separated(names.iter(), ", ")
         )?;
         let child_scope = ctx.push_indent();
-        for child in self.input.iter() {
-            writeln!(w)?;
-            child.textify(&child_scope, w)?;
+        writeln!(w)?;
+        match &self.input {
+            Some(child) => child.textify(&child_scope, w)?,
+            None => write_missing_input(&child_scope, w)?,
         }
 
         Ok(())
-- 
2.43.0


From 178af42ff7199f17c6150d4dc67ade34ee70e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:00 +0000
Subject: [PATCH 27/30] fix: distinguish typed boolean and null literals from
 columns of that name in extension outputs

---
 src/parser/expression_grammar.pest | 3 ++-
 src/textify/extensions.rs          | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 40e64b6..b2c5b6b 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -410,7 +410,8 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 // Output columns - can mix named columns, references, and expressions
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
 // `name:type(` is a call of a function written with its signature, not a column.
-extension_column  = { named_column ~ !(sp ~ ("(" | "#" | "@")) | reference | expression }
+// `true:boolean` is a typed literal; a column of that name is written quoted.
+extension_column  = { !((boolean | null) ~ ":") ~ named_column ~ !(sp ~ ("(" | "#" | "@")) | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 32029f2..a7f21e0 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -70,6 +70,10 @@ impl Textify for ExtensionColumn {
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         match self {
             ExtensionColumn::Named { name, r#type: ty } => {
+                // Bare, these would read as a typed literal.
+                if matches!(name.as_str(), "true" | "false" | "null") {
+                    return write!(w, "\"{name}\":{}", ctx.display(ty));
+                }
                 write!(w, "{}:{}", Name(name), ctx.display(ty))
             }
             ExtensionColumn::Expr(expr) => expr.textify(ctx, w),
-- 
2.43.0


From 1656141679a21ad22d48092ce563e360df80eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:35 +0000
Subject: [PATCH 28/30] fix: print deprecated grouping sets when the first set
 is empty

---
 src/textify/rels.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index b8f35f0..1cfb162 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -737,8 +737,10 @@ impl<'a> Relation<'a> {
         // set, then we silently ignore the deprecated one.
         #[allow(deprecated)]
         if rel.grouping_expressions.is_empty()
-            && !rel.groupings.is_empty()
-            && !rel.groupings[0].grouping_expressions.is_empty()
+            && rel
+                .groupings
+                .iter()
+                .any(|g| !g.grouping_expressions.is_empty())
         {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
-- 
2.43.0


From 05d6078adda664298269afeb94a1b260c84f1e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:29 +0000
Subject: [PATCH 29/30] fix: reject negative typed integer literals as fetch
 limits and offsets

---
 src/parser/relations.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 984c7f3..3fe5e79 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -993,7 +993,15 @@ impl ScopedParsePair for CountMode {
                 Ok(CountMode::CountExpr(i64_literal_expr(value)))
             }
             Rule::expression => {
+                let span = value_pair.as_span();
                 let expr = Expression::parse_pair(extensions, value_pair)?;
+                if let Some(value) = negative_integer_literal(&expr) {
+                    return Err(MessageParseError::invalid(
+                        Self::message(),
+                        span,
+                        format!("Fetch limit must be non-negative, got: {value}"),
+                    ));
+                }
                 Ok(CountMode::CountExpr(Box::new(expr)))
             }
             _ => Err(MessageParseError::invalid(
@@ -1005,6 +1013,21 @@ impl ScopedParsePair for CountMode {
     }
 }
 
+/// The value of `expr` if it is an integer literal with a negative value.
+fn negative_integer_literal(expr: &Expression) -> Option<i64> {
+    let Some(RexType::Literal(literal)) = &expr.rex_type else {
+        return None;
+    };
+    let value = match literal.literal_type {
+        Some(LiteralType::I8(value) | LiteralType::I16(value) | LiteralType::I32(value)) => {
+            i64::from(value)
+        }
+        Some(LiteralType::I64(value)) => value,
+        _ => return None,
+    };
+    (value < 0).then_some(value)
+}
+
 fn i64_literal_expr(value: i64) -> Box<Expression> {
     Box::new(Expression {
         rex_type: Some(RexType::Literal(Literal {
@@ -1052,7 +1075,15 @@ impl ScopedParsePair for OffsetMode {
                 Ok(OffsetMode::OffsetExpr(i64_literal_expr(value)))
             }
             Rule::expression => {
+                let span = value_pair.as_span();
                 let expr = Expression::parse_pair(extensions, value_pair)?;
+                if let Some(value) = negative_integer_literal(&expr) {
+                    return Err(MessageParseError::invalid(
+                        Self::message(),
+                        span,
+                        format!("Fetch offset must be non-negative, got: {value}"),
+                    ));
+                }
                 Ok(OffsetMode::OffsetExpr(Box::new(expr)))
             }
             _ => Err(MessageParseError::invalid(
-- 
2.43.0


From 0970d9e47b727367de2eee62c23593f856a45b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:35 +0000
Subject: [PATCH 30/30] fix: reject a version field repeated after an empty
 value

---
 src/parser/structural.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 9dbdd2a..dd77f1c 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -949,6 +949,8 @@ pub struct Parser<'a> {
     cursor: Option<ChunkCursor<'a>>,
     /// The plan version from an optional `=== Version` section
     version: Option<Version>,
+    /// Names of the version fields read so far, each may appear once.
+    version_fields: Vec<String>,
     extension_parser: ExtensionParser,
     extension_registry: ExtensionRegistry,
     relation_parser: RelationParser<'a>,
@@ -999,6 +1001,7 @@ impl<'a> Parser<'a> {
             state: State::Initial,
             cursor: None,
             version: None,
+            version_fields: Vec::new(),
             extension_parser: ExtensionParser::default(),
             extension_registry: ExtensionRegistry::new(),
             relation_parser: RelationParser::default(),
@@ -1250,13 +1253,14 @@ impl<'a> Parser<'a> {
                 ));
             }
         };
-        if !field.is_empty() {
+        if self.version_fields.iter().any(|f| f == key.trim()) {
             return Err(ParseError::ValidationError(
                 ctx(),
                 format!("duplicate version field {:?}", key.trim()),
             ));
         }
         *field = value;
+        self.version_fields.push(key.trim().to_string());
         Ok(())
     }
 
-- 
2.43.0

