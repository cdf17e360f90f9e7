From 2a51807a381b15340a361aa2a14cf81ad71d4801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 01/34] fix: date-and-or-time parsing panics when the value
 starts with a multi-byte character

---
 src/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 7b39a64..0b4a675 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -539,8 +539,8 @@ impl FromStr for DateAndOrTime {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        if !s.is_empty() && &s[0..1] == "T" {
-            return Ok(Self::Time(parse_time(&s[1..])?));
+        if let Some(time) = s.strip_prefix('T') {
+            return Ok(Self::Time(parse_time(time)?));
         }
 
         match parse_date_time(s) {
-- 
2.43.0


From 4616bf30916a9d3f4db33e42b4ada9cfeb4f4e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 02/34] fix: a negative UTC offset of less than an hour is
 encoded as positive

---
 src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 0b4a675..768a422 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -759,7 +759,7 @@ impl From<UtcOffset> for UtcOffsetProperty {
 impl fmt::Display for UtcOffsetProperty {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let (h, m, _) = self.value.as_hms();
-        let sign = if h >= 0 { '+' } else { '-' };
+        let sign = if self.value.is_negative() { '-' } else { '+' };
         let h = h.abs();
         let m = m.abs();
         let h = if h < 10 {
-- 
2.43.0


From 6aba54d74d9e08d890c52a3355c54887d4ed9ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 03/34] fix: TZ and GEO are not recognized in lower case or
 with a group

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b6a0680..02a1d7f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -26,11 +26,11 @@ pub(crate) enum Token {
     Version,
 
     // Special case shared between property and parameter
-    #[token("TZ")]
+    #[regex("(?i:([a-z0-9-]+\\.)?TZ)")]
     TimeZone,
 
     // Special case shared between property and parameter
-    #[token("GEO")]
+    #[regex("(?i:([a-z0-9-]+\\.)?GEO)")]
     Geo,
 
     #[regex(
-- 
2.43.0


From 600e87c0b7373a980f21bdb3e21ec07899cbc9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 04/34] fix: an empty quoted parameter value is read as a
 double quote

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 02a1d7f..b001086 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -472,7 +472,7 @@ impl<'s> VcardParser<'s> {
                 let mut value = &source[begin..end];
 
                 // Remove double quotes if necessary
-                if value.len() >= 2 && quoted {
+                if quoted {
                     value = &source[begin + 1..end];
                 }
 
-- 
2.43.0


From bb823f99a78e35300b1e1727bf8901c76e8d2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 05/34] fix: a parameter value swallows the line break and the
 content line after it

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b001086..53feeff 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -442,6 +442,11 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
+            // A parameter value may not span content lines
+            if token == Ok(Token::NewLine) {
+                return Err(Error::DelimiterExpected);
+            }
+
             if token == Ok(Token::FoldedLine)
                 || token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
-- 
2.43.0


From e392a5fe69fa8ed03c46c35bc34c963b82db62a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 06/34] fix: ignored parameters leave an empty parameter set
 that does not survive encoding

---
 src/parser.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 53feeff..608ac8b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -204,13 +204,11 @@ impl<'s> VcardParser<'s> {
         if let Some(delimiter) = delimiter {
             if delimiter == Ok(Token::ParameterDelimiter) {
                 let parameters = self.parse_parameters(lex, name)?;
+                // Ignored parameters (eg: CHARSET) leave nothing to keep
+                let parameters =
+                    Some(parameters).filter(|p| p != &Parameters::default());
                 self.parse_property_by_name(
-                    lex,
-                    token,
-                    card,
-                    name,
-                    Some(parameters),
-                    group,
+                    lex, token, card, name, parameters, group,
                 )?;
             } else if delimiter == Ok(Token::PropertyDelimiter) {
                 self.parse_property_by_name(
-- 
2.43.0


From 82e0983600a9e77d0f7993c2026f5cfe69f78ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 07/34] fix: a vCard without END:VCARD is accepted

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 608ac8b..ffdf6d3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -157,7 +157,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<()> {
         while let Some(first) = lex.next() {
             if first == Ok(Token::End) {
-                break;
+                return Ok(());
             }
             if let Ok(Token::Version) = first {
                 return Err(Error::VersionMisplaced);
@@ -179,7 +179,8 @@ impl<'s> VcardParser<'s> {
                 return Err(e);
             }
         }
-        Ok(())
+        // Reached EOF without the closing END:VCARD
+        Err(Error::TokenExpected)
     }
 
     /// Parse a single property.
-- 
2.43.0


From ffda3a5242f9f36a6194e864141a8094445d563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 08/34] fix: parse_loose reads the rest of an ignored content
 line as properties

---
 src/parser.rs | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ffdf6d3..29c4ca2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -163,26 +163,45 @@ impl<'s> VcardParser<'s> {
                 return Err(Error::VersionMisplaced);
             }
 
-            self.assert_token(
-                Some(&first),
-                &[
-                    Token::PropertyName,
-                    Token::ExtensionName,
-                    Token::TimeZone,
-                    Token::Geo,
-                ],
-            )?;
-
-            if let Err(e) = self.parse_property(lex, first, card)
-                && self.strict
-            {
-                return Err(e);
+            let begin = first == Ok(Token::Begin);
+            let result = self
+                .assert_token(
+                    Some(&first),
+                    &[
+                        Token::PropertyName,
+                        Token::ExtensionName,
+                        Token::TimeZone,
+                        Token::Geo,
+                    ],
+                )
+                .and_then(|_| self.parse_property(lex, first, card));
+
+            if let Err(e) = result {
+                // A nested vCard is not a property that can be ignored
+                if self.strict || begin {
+                    return Err(e);
+                }
+                self.skip_line(lex);
             }
         }
         // Reached EOF without the closing END:VCARD
         Err(Error::TokenExpected)
     }
 
+    /// Skip the rest of the content line for a property that is ignored.
+    fn skip_line(&self, lex: &mut Lexer<'_, Token>) {
+        // The line break has already been consumed when the
+        // property value generated the error
+        if lex.slice().ends_with('\n') {
+            return;
+        }
+        for token in lex.by_ref() {
+            if token == Ok(Token::NewLine) {
+                break;
+            }
+        }
+    }
+
     /// Parse a single property.
     fn parse_property(
         &self,
-- 
2.43.0


From 3c575aaf7dde93d283891259dc07b1327a1e26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 09/34] fix: line folding inside a name, a parameter name or an
 escape sequence corrupts the content line

---
 src/lib.rs    |  4 ++--
 src/parser.rs | 48 +++++++++++++++++++++++++++++++-----------------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5518dd1..526a801 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,8 +156,8 @@ pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
 
 pub(crate) fn unescape_value(value: &str) -> String {
     use aho_corasick::AhoCorasick;
-    let patterns = &["\r", "\n ", "\n\t", "\\n", "\\N", "\\,"];
-    let replace_with = &["", "", "", "\n", "\n", ","];
+    let patterns = &["\\n", "\\N", "\\,"];
+    let replace_with = &["\n", "\n", ","];
     let ac = AhoCorasick::new(patterns).unwrap();
     ac.replace_all(value, replace_with)
 }
diff --git a/src/parser.rs b/src/parser.rs
index 29c4ca2..98ffa24 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -58,9 +58,6 @@ pub(crate) enum Token {
     #[token(":")]
     PropertyDelimiter,
 
-    #[regex("\\r?\\n( |\\t)")]
-    FoldedLine,
-
     #[token("\\,")]
     EscapedComma,
 
@@ -89,16 +86,37 @@ pub(crate) enum Token {
     Text,
 }
 
+/// Remove line folding from the source.
+///
+/// A fold may appear anywhere in a content line so lines must be
+/// unfolded before the tokens are recognized.
+/// SEE: https://www.rfc-editor.org/rfc/rfc6350#section-3.2
+fn unfold(source: &str) -> Cow<'_, str> {
+    use aho_corasick::{AhoCorasick, MatchKind};
+    let folds = AhoCorasick::builder()
+        .match_kind(MatchKind::LeftmostFirst)
+        .build(["\r\n ", "\r\n\t", "\n ", "\n\t"])
+        .unwrap();
+    if folds.is_match(source) {
+        Cow::Owned(folds.replace_all(source, &["", "", "", ""]))
+    } else {
+        Cow::Borrowed(source)
+    }
+}
+
 /// Parses vCards from a string.
 pub(crate) struct VcardParser<'s> {
     strict: bool,
-    pub(crate) source: &'s str,
+    pub(crate) source: Cow<'s, str>,
 }
 
 impl<'s> VcardParser<'s> {
     /// Create a new parser.
     pub fn new(source: &'s str, strict: bool) -> Self {
-        Self { source, strict }
+        Self {
+            source: unfold(source),
+            strict,
+        }
     }
 
     /// Parse a UTF-8 encoded string into a list of vCards.
@@ -126,8 +144,8 @@ impl<'s> VcardParser<'s> {
     }
 
     /// Get a lexer for the current source.
-    pub(crate) fn lexer(&self) -> Lexer<'s, Token> {
-        Token::lexer(self.source)
+    pub(crate) fn lexer(&self) -> Lexer<'_, Token> {
+        Token::lexer(&self.source)
     }
 
     /// Parse a single vCard.
@@ -449,7 +467,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<(String, LexResult<Token>, bool)> {
         let mut first_range: Option<Range<usize>> = None;
         let mut quoted = false;
-        let mut is_folded_or_escaped = false;
+        let mut is_escaped = false;
 
         while let Some(mut token) = lex.next() {
             let span = lex.span();
@@ -465,12 +483,11 @@ impl<'s> VcardParser<'s> {
                 return Err(Error::DelimiterExpected);
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedNewLine)
+            if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
             {
-                is_folded_or_escaped = true;
+                is_escaped = true;
             }
 
             let completed = if first_range.is_some() && quoted {
@@ -513,7 +530,7 @@ impl<'s> VcardParser<'s> {
                     };
                 }
 
-                let value = if is_folded_or_escaped {
+                let value = if is_escaped {
                     unescape_value(value)
                 } else {
                     value.to_string()
@@ -1038,8 +1055,7 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedSemiColon)
+            if token == Ok(Token::EscapedSemiColon)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedBackSlash)
@@ -1059,9 +1075,7 @@ impl<'s> VcardParser<'s> {
             if needs_transform {
                 let mut value = String::new();
                 for (token, span) in tokens {
-                    if token == Ok(Token::FoldedLine) {
-                        continue;
-                    } else if token == Ok(Token::EscapedComma) {
+                    if token == Ok(Token::EscapedComma) {
                         value.push(',');
                         continue;
                     } else if token == Ok(Token::EscapedSemiColon) {
-- 
2.43.0


From 7588925f0050452baf98c5af5363c1a1a4477954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 10/34] fix: escaped delimiters in N, ORG, ADR and CATEGORIES
 are read as component delimiters

---
 src/lib.rs      | 20 ++++++++++++++++++++
 src/parser.rs   | 38 ++++++++++++++++++--------------------
 src/property.rs | 17 +++++++++--------
 3 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 526a801..61b4b21 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -162,6 +162,26 @@ pub(crate) fn unescape_value(value: &str) -> String {
     ac.replace_all(value, replace_with)
 }
 
+/// Helper for unescaping text values.
+pub(crate) fn unescape_text(value: &str) -> String {
+    use aho_corasick::AhoCorasick;
+    let patterns = &["\\\\", "\\n", "\\N", "\\,", "\\;"];
+    let replace_with = &["\\", "\n", "\n", ",", ";"];
+    let ac = AhoCorasick::new(patterns).unwrap();
+    ac.replace_all(value, replace_with)
+}
+
+/// Pattern to split the components of a value before it is unescaped,
+/// an escaped delimiter does not separate components.
+pub(crate) fn unescaped(delimiter: char) -> impl FnMut(char) -> bool {
+    let mut escaped = false;
+    move |c: char| {
+        let is_delimiter = c == delimiter && !escaped;
+        escaped = c == '\\' && !escaped;
+        is_delimiter
+    }
+}
+
 pub(crate) fn escape_control(value: &str) -> String {
     let values = value
         .chars()
diff --git a/src/parser.rs b/src/parser.rs
index 98ffa24..2e30b3f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,8 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_value,
+    name::*, parameter::*, property::*, unescape_text, unescape_value,
+    unescaped,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -552,7 +553,7 @@ impl<'s> VcardParser<'s> {
         parameters: Option<Parameters>,
         group: Option<String>,
     ) -> Result<()> {
-        let value = self.parse_property_value(lex)?;
+        let (value, raw_value) = self.parse_property_value(lex)?;
 
         let upper_name = name.to_uppercase();
 
@@ -605,10 +606,9 @@ impl<'s> VcardParser<'s> {
                 if card.name.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
                 }
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
+                let value = raw_value
+                    .split(unescaped(';'))
+                    .map(unescape_text)
                     .collect::<Vec<_>>();
                 card.name = Some(TextListProperty {
                     value,
@@ -681,7 +681,7 @@ impl<'s> VcardParser<'s> {
             // Delivery Addressing
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.3
             ADR => {
-                let value: DeliveryAddress = value.as_ref().parse()?;
+                let value: DeliveryAddress = raw_value.parse()?;
                 card.address.push(AddressProperty {
                     value,
                     parameters,
@@ -803,10 +803,9 @@ impl<'s> VcardParser<'s> {
                 });
             }
             ORG => {
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
+                let value = raw_value
+                    .split(unescaped(';'))
+                    .map(unescape_text)
                     .collect::<Vec<_>>();
                 card.org.push(TextListProperty {
                     value,
@@ -835,10 +834,9 @@ impl<'s> VcardParser<'s> {
             // Explanatory
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.7
             CATEGORIES => {
-                let value = value
-                    .as_ref()
-                    .split(',')
-                    .map(|s| s.to_string())
+                let value = raw_value
+                    .split(unescaped(','))
+                    .map(unescape_text)
                     .collect::<Vec<_>>();
                 card.categories.push(TextListProperty {
                     value,
@@ -1032,11 +1030,11 @@ impl<'s> VcardParser<'s> {
         Ok(())
     }
 
-    /// Get the slice for the property value.
+    /// Get the property value and the slice it was unescaped from.
     fn parse_property_value<'a>(
         &self,
         lex: &'a mut Lexer<'_, Token>,
-    ) -> Result<Cow<'a, str>> {
+    ) -> Result<(Cow<'a, str>, &'a str)> {
         let mut first_range: Option<Range<usize>> = None;
         let mut last_range: Option<Range<usize>> = None;
 
@@ -1072,6 +1070,7 @@ impl<'s> VcardParser<'s> {
         }
 
         if let (Some(first), Some(last)) = (first_range, last_range) {
+            let raw_value = &lex.source()[first.start..last.start];
             if needs_transform {
                 let mut value = String::new();
                 for (token, span) in tokens {
@@ -1092,10 +1091,9 @@ impl<'s> VcardParser<'s> {
                     let source = lex.source();
                     value.push_str(&source[span]);
                 }
-                Ok(Cow::Owned(value))
+                Ok((Cow::Owned(value), raw_value))
             } else {
-                let source = lex.source();
-                Ok(Cow::Borrowed(&source[first.start..last.start]))
+                Ok((Cow::Borrowed(raw_value), raw_value))
             }
         } else {
             Err(Error::InvalidPropertyValue)
diff --git a/src/property.rs b/src/property.rs
index 768a422..0372192 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -28,6 +28,7 @@ use crate::{
         parse_date_time, parse_time, parse_utc_offset,
     },
     parameter::Parameters,
+    unescape_text, unescaped,
 };
 
 const INDIVIDUAL: &str = "individual";
@@ -135,7 +136,7 @@ impl FromStr for DeliveryAddress {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        let mut it = s.splitn(7, ';');
+        let mut it = s.splitn(7, unescaped(';'));
         let po_box = it
             .next()
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
@@ -159,37 +160,37 @@ impl FromStr for DeliveryAddress {
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
 
         let po_box = if !po_box.is_empty() {
-            Some(po_box.to_owned())
+            Some(unescape_text(po_box))
         } else {
             None
         };
         let extended_address = if !extended_address.is_empty() {
-            Some(extended_address.to_owned())
+            Some(unescape_text(extended_address))
         } else {
             None
         };
         let street_address = if !street_address.is_empty() {
-            Some(street_address.to_owned())
+            Some(unescape_text(street_address))
         } else {
             None
         };
         let locality = if !locality.is_empty() {
-            Some(locality.to_owned())
+            Some(unescape_text(locality))
         } else {
             None
         };
         let region = if !region.is_empty() {
-            Some(region.to_owned())
+            Some(unescape_text(region))
         } else {
             None
         };
         let postal_code = if !postal_code.is_empty() {
-            Some(postal_code.to_owned())
+            Some(unescape_text(postal_code))
         } else {
             None
         };
         let country_name = if !country_name.is_empty() {
-            Some(country_name.to_owned())
+            Some(unescape_text(country_name))
         } else {
             None
         };
-- 
2.43.0


From 85d6444ab8ab753359a70f3e92d22101133f575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 11/34] fix: VcardIterator yields the same error forever after
 an error or trailing newlines

---
 src/iter.rs | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 7e32c7f..ab3e489 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,9 +1,9 @@
 //! Iterator for parsing vCards.
 use crate::{
-    Error, Result, Vcard,
+    Result, Vcard,
+    name::BEGIN,
     parser::{Token, VcardParser},
 };
-use std::ops::Range;
 
 /// Iterator for parsing vCards.
 pub struct VcardIterator<'s> {
@@ -21,17 +21,41 @@ impl<'s> VcardIterator<'s> {
     }
 
     /// Parse the next vCard.
-    fn parse_next(&self, offset: usize) -> Result<(Vcard, Range<usize>)> {
+    ///
+    /// Returns `None` when only newlines are left. On error
+    /// the offset is moved to the start of the next vCard.
+    fn parse_next(&mut self) -> Result<Option<Vcard>> {
         let mut lex = self.parser.lexer();
-        lex.bump(offset);
+        lex.bump(self.offset);
         while let Some(first) = lex.next() {
             if first == Ok(Token::NewLine) {
                 continue;
-            } else {
-                return self.parser.parse_one(&mut lex, Some(first));
             }
+            let begin = lex.span().end;
+            let result = self.parser.parse_one(&mut lex, Some(first));
+            self.offset = match &result {
+                Ok((_, span)) => span.end,
+                Err(_) => self.next_begin(begin),
+            };
+            return result.map(|(card, _)| Some(card));
         }
-        Err(Error::TokenExpected)
+        self.offset = self.parser.source.len();
+        Ok(None)
+    }
+
+    /// Find the start of the first content line after an offset
+    /// that begins a vCard.
+    fn next_begin(&self, offset: usize) -> usize {
+        let source = &self.parser.source;
+        let mut start = offset;
+        while let Some(pos) = source[start..].find('\n') {
+            start += pos + 1;
+            let line = source[start..].lines().next().unwrap_or_default();
+            if line.eq_ignore_ascii_case(BEGIN) {
+                return start;
+            }
+        }
+        source.len()
     }
 }
 
@@ -42,12 +66,6 @@ impl<'s> Iterator for VcardIterator<'s> {
         if self.offset >= self.parser.source.len() {
             return None;
         }
-        match self.parse_next(self.offset) {
-            Ok((card, span)) => {
-                self.offset = span.end;
-                Some(Ok(card))
-            }
-            Err(e) => Some(Err(e)),
-        }
+        self.parse_next().transpose()
     }
 }
-- 
2.43.0


From 1e22cc7f2b48379017b6d88aeb8429b02ee25473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 12/34] fix: backslashes, newlines and semi-colons in parameter
 values do not survive encoding

---
 src/lib.rs       |  8 --------
 src/parameter.rs | 24 ++++++++++++++++++------
 src/parser.rs    |  6 +++---
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 61b4b21..a4c6c8f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -154,14 +154,6 @@ pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
     }
 }
 
-pub(crate) fn unescape_value(value: &str) -> String {
-    use aho_corasick::AhoCorasick;
-    let patterns = &["\\n", "\\N", "\\,"];
-    let replace_with = &["\n", "\n", ","];
-    let ac = AhoCorasick::new(patterns).unwrap();
-    ac.replace_all(value, replace_with)
-}
-
 /// Helper for unescaping text values.
 pub(crate) fn unescape_text(value: &str) -> String {
     use aho_corasick::AhoCorasick;
diff --git a/src/parameter.rs b/src/parameter.rs
index 5620496..f5b672c 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -562,7 +562,12 @@ impl fmt::Display for Parameters {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         use crate::name::*;
         if let Some(language) = &self.language {
-            write!(f, ";{}={}", LANGUAGE, language)?;
+            write!(
+                f,
+                ";{}={}",
+                LANGUAGE,
+                escape_parameter(&language.to_string())
+            )?;
         }
         if let Some(value) = &self.value {
             write!(f, ";{}={}", VALUE, value)?;
@@ -571,7 +576,7 @@ impl fmt::Display for Parameters {
             write!(f, ";{}={}", PREF, pref)?;
         }
         if let Some(alt_id) = &self.alt_id {
-            write!(f, ";{}=\"{}\"", ALTID, alt_id)?;
+            write!(f, ";{}=\"{}\"", ALTID, escape_parameter(alt_id))?;
         }
         if let Some(pids) = &self.pid {
             write!(f, ";{}={}", PID, comma_delimited(pids))?;
@@ -580,10 +585,15 @@ impl fmt::Display for Parameters {
             write!(f, ";{}={}", TYPE, comma_delimited(types))?;
         }
         if let Some(media_type) = &self.media_type {
-            write!(f, ";{}={}", MEDIATYPE, media_type)?;
+            write!(
+                f,
+                ";{}={}",
+                MEDIATYPE,
+                escape_parameter(media_type.as_ref())
+            )?;
         }
         if let Some(calscale) = &self.calscale {
-            write!(f, ";{}={}", CALSCALE, calscale)?;
+            write!(f, ";{}={}", CALSCALE, escape_parameter(calscale))?;
         }
         if let Some(sort_as) = &self.sort_as {
             write!(f, ";{}=\"{}\"", SORT_AS, comma_delimited(sort_as))?;
@@ -593,7 +603,9 @@ impl fmt::Display for Parameters {
         }
         if let Some(tz) = &self.timezone {
             match tz {
+                // Text must not be quoted
                 TimeZoneParameter::Text(val) => {
+                    let val = escape_parameter(val).replace(';', "\\;");
                     write!(f, ";{}={}", TZ, val)?;
                 }
                 TimeZoneParameter::UtcOffset(val) => {
@@ -619,13 +631,13 @@ impl fmt::Display for Parameters {
 }
 
 fn escape_parameter(s: &str) -> String {
-    s.replace('\n', "\\n")
+    s.replace('\\', "\\\\").replace('\n', "\\n")
 }
 
 fn comma_delimited(items: &[impl std::fmt::Display]) -> String {
     let mut value = String::new();
     for (index, item) in items.iter().enumerate() {
-        value.push_str(&item.to_string());
+        value.push_str(&escape_parameter(&item.to_string()));
         if index < items.len() - 1 {
             value.push(',');
         }
diff --git a/src/parser.rs b/src/parser.rs
index 2e30b3f..8f658bd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,8 +11,7 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_text, unescape_value,
-    unescaped,
+    name::*, parameter::*, property::*, unescape_text, unescaped,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -486,6 +485,7 @@ impl<'s> VcardParser<'s> {
 
             if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
+                || token == Ok(Token::EscapedSemiColon)
                 || token == Ok(Token::EscapedBackSlash)
             {
                 is_escaped = true;
@@ -532,7 +532,7 @@ impl<'s> VcardParser<'s> {
                 }
 
                 let value = if is_escaped {
-                    unescape_value(value)
+                    unescape_text(value)
                 } else {
                     value.to_string()
                 };
-- 
2.43.0


From ddecab51f1c835cbd89148756e17cd9885f165c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 13/34] fix: parameter values with a semi-colon or a colon are
 encoded without quotes

---
 src/parameter.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index f5b672c..f4bfd17 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -566,7 +566,7 @@ impl fmt::Display for Parameters {
                 f,
                 ";{}={}",
                 LANGUAGE,
-                escape_parameter(&language.to_string())
+                quote_parameter(escape_parameter(&language.to_string()))
             )?;
         }
         if let Some(value) = &self.value {
@@ -582,18 +582,28 @@ impl fmt::Display for Parameters {
             write!(f, ";{}={}", PID, comma_delimited(pids))?;
         }
         if let Some(types) = &self.types {
-            write!(f, ";{}={}", TYPE, comma_delimited(types))?;
+            write!(
+                f,
+                ";{}={}",
+                TYPE,
+                quote_parameter(comma_delimited(types))
+            )?;
         }
         if let Some(media_type) = &self.media_type {
             write!(
                 f,
                 ";{}={}",
                 MEDIATYPE,
-                escape_parameter(media_type.as_ref())
+                quote_parameter(escape_parameter(media_type.as_ref()))
             )?;
         }
         if let Some(calscale) = &self.calscale {
-            write!(f, ";{}={}", CALSCALE, escape_parameter(calscale))?;
+            write!(
+                f,
+                ";{}={}",
+                CALSCALE,
+                quote_parameter(escape_parameter(calscale))
+            )?;
         }
         if let Some(sort_as) = &self.sort_as {
             write!(f, ";{}=\"{}\"", SORT_AS, comma_delimited(sort_as))?;
@@ -634,6 +644,15 @@ fn escape_parameter(s: &str) -> String {
     s.replace('\\', "\\\\").replace('\n', "\\n")
 }
 
+/// Quote a value that contains parameter or property delimiters.
+fn quote_parameter(value: String) -> String {
+    if value.contains([';', ':']) {
+        format!("\"{}\"", value)
+    } else {
+        value
+    }
+}
+
 fn comma_delimited(items: &[impl std::fmt::Display]) -> String {
     let mut value = String::new();
     for (index, item) in items.iter().enumerate() {
-- 
2.43.0


From f12c3d87e17de23d5da111938c21a687c1353e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 14/34] fix: a stand-alone time in a date-and-or-time value is
 encoded without the T prefix

---
 src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 0372192..694f2c1 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -529,8 +529,9 @@ impl fmt::Display for DateAndOrTime {
                 "{}",
                 format_date_time(val).map_err(|_| fmt::Error)?
             ),
+            // A stand-alone time requires the "T" prefix
             Self::Time(val) => {
-                write!(f, "{}", format_time(val).map_err(|_| fmt::Error)?)
+                write!(f, "T{}", format_time(val).map_err(|_| fmt::Error)?)
             }
         }
     }
-- 
2.43.0


From 19b44a99541e6c726118cf41c04052abe967bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 15/34] fix: a month without a year or a day (--MM) is read as
 a time

---
 src/helper.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index b99932b..08a7937 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -160,8 +160,12 @@ pub fn parse_date(value: &str) -> Result<Date> {
             *val = "01";
         }
 
-        let value = parts.join("");
-        do_parse_date(&value)
+        let mut date = parts.join("");
+        // Got a --MM format need to use 01 for the day
+        if value.len() == 4 && value.starts_with("--") {
+            date.push_str("01");
+        }
+        do_parse_date(&date)
     // Got a YYYY-MM format need to use 01 for the day
     } else if value.len() == 7 {
         let value = format!("{}-01", value);
-- 
2.43.0


From 5b1f164ef0047d2f4d3860f33de1fb466398af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 16/34] fix: the group and parameters of BDAY and ANNIVERSARY
 dates are not zeroized

---
 src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 694f2c1..8428ed9 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -561,6 +561,7 @@ impl FromStr for DateAndOrTime {
 /// Date and or time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 pub struct DateAndOrTimeProperty {
     /// Group for this property.
     #[cfg_attr(
@@ -569,6 +570,7 @@ pub struct DateAndOrTimeProperty {
     )]
     pub group: Option<String>,
     /// The value for the property.
+    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     pub value: Vec<DateAndOrTime>,
     /// The property parameters.
     #[cfg_attr(
@@ -671,7 +673,6 @@ impl fmt::Display for TextOrUriProperty {
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum DateTimeOrTextProperty {
     /// Date time value.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     DateTime(DateAndOrTimeProperty),
     /// Text value.
     Text(TextProperty),
-- 
2.43.0


From fb689c604dd4780f43a75c1a7641807c05584642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 17/34] fix: TZ with an explicit VALUE=text is rejected

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 8f658bd..a1008de 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -742,6 +742,15 @@ impl<'s> VcardParser<'s> {
                             card.timezone
                                 .push(TimeZoneProperty::UtcOffset(value));
                         }
+                        ValueType::Text => {
+                            card.timezone.push(TimeZoneProperty::Text(
+                                TextProperty {
+                                    value: value.into_owned(),
+                                    parameters,
+                                    group,
+                                },
+                            ));
+                        }
                         ValueType::Uri => {
                             let value = value.parse()?;
                             card.timezone.push(TimeZoneProperty::Uri(
-- 
2.43.0


From a2b10d6e1dbc6b87e74748731e26c794c59ff807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 18/34] fix: Date can not be parsed from the string it is
 displayed and serialized as

---
 src/date_time.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/date_time.rs b/src/date_time.rs
index 92aba7d..8dc280d 100644
--- a/src/date_time.rs
+++ b/src/date_time.rs
@@ -1,6 +1,9 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use time::{OffsetDateTime, format_description::well_known::Rfc3339};
+use time::{
+    OffsetDateTime,
+    format_description::{self, well_known::Rfc3339},
+};
 
 #[cfg(feature = "serde")]
 use serde_with::{DeserializeFromStr, SerializeDisplay, serde_as};
@@ -84,6 +87,7 @@ impl FromStr for Date {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(OffsetDateTime::parse(s, &Rfc3339)?.date()))
+        let date = format_description::parse("[year]-[month]-[day]")?;
+        Ok(Self(time::Date::parse(s, &date)?))
     }
 }
-- 
2.43.0


From 7d9771323ff43838035215576f8fae48f3370eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 19/34] fix: values that serialize to the same JSON are
 deserialized as another type

Text, URI, UTC offset, language tag, date and timestamp values are all
strings in JSON so the untagged enums could not tell them apart; the
type of the value is now part of the serialized data.
---
 src/property.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 8428ed9..636c5f6 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -331,7 +331,7 @@ pub struct ExtensionProperty {
 #[cfg_attr(feature = "serde", cfg_eval::cfg_eval, serde_as)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
-#[cfg_attr(feature = "serde", serde(untagged, rename_all = "camelCase"))]
+#[cfg_attr(feature = "serde", serde(rename_all = "camelCase"))]
 #[allow(clippy::large_enum_variant)]
 pub enum AnyProperty {
     /// Text property.
@@ -620,7 +620,7 @@ impl fmt::Display for DateAndOrTimeProperty {
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
-#[cfg_attr(feature = "serde", serde(untagged))]
+#[cfg_attr(feature = "serde", serde(rename_all = "camelCase"))]
 #[allow(clippy::large_enum_variant)]
 pub enum TextOrUriProperty {
     /// Text value.
@@ -796,7 +796,7 @@ impl FromStr for UtcOffsetProperty {
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
-#[cfg_attr(feature = "serde", serde(untagged))]
+#[cfg_attr(feature = "serde", serde(rename_all = "camelCase"))]
 #[allow(clippy::large_enum_variant)]
 pub enum TimeZoneProperty {
     /// Text value.
-- 
2.43.0


From 42f3541cf9ca0742bd90af27fe05a0186f06cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 20/34] fix: the TYPE values home and work are only recognized
 in lower case

---
 src/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index f4bfd17..564fa1d 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -91,7 +91,7 @@ impl FromStr for TypeParameter {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        match s {
+        match &s.to_lowercase()[..] {
             HOME => Ok(Self::Home),
             WORK => Ok(Self::Work),
             _ => {
-- 
2.43.0


From ea23c439765b3f806bcb3c478ea3a19c8fad2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 21/34] fix: infinity and NaN are accepted as float values

---
 src/helper.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 08a7937..9ace9f6 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -398,7 +398,12 @@ pub(crate) fn format_integer_list(
 pub fn parse_float_list(value: &str) -> Result<Vec<f64>> {
     let mut values = Vec::new();
     for value in value.split(',') {
-        values.push(value.parse()?);
+        let value: f64 = value.parse()?;
+        // Infinity and NaN are not float values in a vCard
+        if !value.is_finite() {
+            return Err(Error::InvalidPropertyValue);
+        }
+        values.push(value);
     }
     Ok(values)
 }
-- 
2.43.0


From 4b5d150b842c914d67c2c76dcd8ef7e9452e0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 22/34] fix: a PHOTO with VALUE=text is read as a URI

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a1008de..9e2fde3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -625,14 +625,17 @@ impl<'s> VcardParser<'s> {
                 });
             }
             PHOTO => match value.as_ref().parse::<Uri>() {
-                Ok(value) => {
+                Ok(value)
+                    if parameters.as_ref().and_then(|p| p.value.as_ref())
+                        != Some(&ValueType::Text) =>
+                {
                     card.photo.push(TextOrUriProperty::Uri(UriProperty {
                         value,
                         parameters,
                         group,
                     }));
                 }
-                Err(_) => {
+                _ => {
                     card.photo.push(TextOrUriProperty::Text(TextProperty {
                         value: value.into_owned(),
                         parameters,
-- 
2.43.0


From e2495a49f658f21b20b81ccf9e534a3cb7e7c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 23/34] fix: language values are encoded without escaping

---
 src/property.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 636c5f6..75aae42 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -390,7 +390,9 @@ impl fmt::Display for AnyProperty {
             Self::Timestamp(val) => format_timestamp_list(f, val),
             Self::UtcOffset(val) => format_utc_offset(f, val),
             Self::Uri(val) => write!(f, "{}", val),
-            Self::Language(val) => write!(f, "{}", val),
+            Self::Language(val) => {
+                write!(f, "{}", escape_value(&val.to_string(), false))
+            }
         }
     }
 }
@@ -445,6 +447,12 @@ impl From<LanguageTag> for LanguageProperty {
     }
 }
 
+impl fmt::Display for LanguageProperty {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", escape_value(&self.value.to_string(), false))
+    }
+}
+
 /// Date time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -1259,7 +1267,6 @@ display_impl!(KindProperty);
 property_impl!(TextProperty);
 
 property_impl!(LanguageProperty);
-display_impl!(LanguageProperty);
 
 property_impl!(DateTimeProperty);
 
-- 
2.43.0


From bdca8b5cef97c79da160ea0bedd049533eefbab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 24/34] fix: embedded JPEG is skipped when other parameters
 come first

---
 src/vcard.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vcard.rs b/src/vcard.rs
index c7a68c2..be043ca 100644
--- a/src/vcard.rs
+++ b/src/vcard.rs
@@ -301,13 +301,14 @@ impl Vcard {
                 && let Some(params) = &prop.parameters
                 && let (Some(types), Some(extensions)) =
                     (&params.types, &params.extensions)
-                && let (
-                    Some(TypeParameter::Extension(value)),
-                    Some((name, values)),
-                ) = (types.first(), extensions.first())
-                && name.to_uppercase() == "ENCODING"
-                && values.first() == Some(&"b".to_string())
-                && &value.to_uppercase() == "JPEG"
+                && types.iter().any(|t| {
+                    matches!(t, TypeParameter::Extension(value)
+                        if value.eq_ignore_ascii_case("JPEG"))
+                })
+                && extensions.iter().any(|(name, values)| {
+                    name.eq_ignore_ascii_case("ENCODING")
+                        && values.first().map(String::as_str) == Some("b")
+                })
             {
                 let encoded = &prop.value;
                 let buffer = general_purpose::STANDARD.decode(encoded)?;
-- 
2.43.0


From f07d61b1ad3c170d666774fdbf567cb72ee5784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 25/34] fix: text such as 1:2 in place of a URI panics

---
 src/uri.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index 1b94dfc..b3f3ee6 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -1,6 +1,6 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use uriparse::URI;
+use uriparse::{URI, URIError, URIReference};
 
 /// URI type for the library.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -15,6 +15,10 @@ impl FromStr for Uri {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(URI::try_from(s)?.into_owned()))
+        // URI::try_from panics for text such as "1:2" that is neither a URI
+        // nor a relative reference.
+        let reference = URIReference::try_from(s)
+            .map_err(|e| URIError::try_from(e).unwrap_or(URIError::NotURI))?;
+        Ok(Self(URI::try_from(reference)?.into_owned()))
     }
 }
-- 
2.43.0


From 83f0c91f74d29bfd4f1b5305a370daf2ea054b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 26/34] fix: parameter value ending in BEGIN, END or VERSION
 swallows the delimiter

---
 src/parser.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 9e2fde3..a3e474c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -506,6 +506,26 @@ impl<'s> VcardParser<'s> {
                 }
             }
 
+            // Tokens for framing lines span the property delimiter
+            // which ends a value that is not quoted
+            if !quoted
+                && (token == Ok(Token::Begin)
+                    || token == Ok(Token::Version)
+                    || token == Ok(Token::End))
+            {
+                let source = lex.source();
+                let begin = first_range.unwrap().start;
+                let end = span.start + lex.slice().find(':').unwrap();
+                *lex = Token::lexer(source);
+                lex.bump(end + 1);
+                let value = if is_escaped {
+                    unescape_text(&source[begin..end])
+                } else {
+                    source[begin..end].to_string()
+                };
+                return Ok((value, Ok(Token::PropertyDelimiter), false));
+            }
+
             if completed {
                 let source = lex.source();
                 let begin = first_range.unwrap().start;
-- 
2.43.0


From ddaeb25adc1d5fc54fec2daa38791f6bd819666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 27/34] fix: date and time accepted as a date or as a time,
 losing the rest

---
 src/helper.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 9ace9f6..51b2671 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -95,6 +95,11 @@ fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
         value = &value[0..value.len() - 1];
     }
 
+    // A date and time is not a time
+    if value.rfind('T').is_some_and(|pos| pos > 0) {
+        return Err(Error::InvalidTime(value.to_string()));
+    }
+
     let time = Time::parse(value, &Iso8601::DEFAULT)?;
     Ok((time, offset))
 }
@@ -195,6 +200,9 @@ fn do_parse_date(s: &str) -> Result<Date> {
         Ok(result)
     } else if let Ok(result) = Date::parse(s, &year_month) {
         Ok(result)
+    // A date and time is not a date
+    } else if s.contains('T') {
+        Err(Error::InvalidDate(s.to_string()))
     } else {
         Ok(Date::parse(s, &Iso8601::DEFAULT)?)
     }
-- 
2.43.0


From 3d02416dd0c90c7777c273091c14b2317a546b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 28/34] fix: impossible day ---00 read as midnight

---
 src/helper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 51b2671..47c9c0e 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -55,6 +55,11 @@ pub fn parse_time_list(value: &str) -> Result<Vec<(Time, UtcOffset)>> {
 
 /// Parse a time.
 pub fn parse_time(value: &str) -> Result<(Time, UtcOffset)> {
+    // No more than the hour and the minute may be truncated
+    if value.starts_with("---") {
+        return Err(Error::InvalidTime(value.to_string()));
+    }
+
     if value.starts_with('-') {
         let mut parts = value.split("").collect::<Vec<_>>();
         let val = parts
-- 
2.43.0


From a84dd74cd5ea3a8095a6078b0e5e95710f9366d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 29/34] fix: double quote inside of an unquoted parameter value
 is accepted and cannot be written

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index a3e474c..ce7cf24 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -483,6 +483,14 @@ impl<'s> VcardParser<'s> {
                 return Err(Error::DelimiterExpected);
             }
 
+            // Only a quoted value may have double quotes, around it
+            if token == Ok(Token::DoubleQuote)
+                && first_range.is_some()
+                && !quoted
+            {
+                return Err(Error::DelimiterExpected);
+            }
+
             if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedSemiColon)
-- 
2.43.0


From d00c8a471d9f5e48979331f2d9a0d65451651e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 30/34] fix: reject a UTC offset of 24 hours or more

Offsets of up to 25:59 were accepted; a date and time with such an offset
cannot be serialized.
---
 src/helper.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 47c9c0e..8359478 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -25,10 +25,18 @@ pub fn parse_utc_offset(value: &str) -> Result<UtcOffset> {
         format_description::parse("[offset_hour sign:mandatory]")?;
 
     if let Ok(result) = UtcOffset::parse(value, &offset_format) {
-        Ok(result)
+        check_utc_offset(result, value)
     } else {
-        Ok(UtcOffset::parse(value, &offset_hours)?)
+        check_utc_offset(UtcOffset::parse(value, &offset_hours)?, value)
+    }
+}
+
+/// The hour of an offset is 00 to 23.
+fn check_utc_offset(offset: UtcOffset, value: &str) -> Result<UtcOffset> {
+    if offset.whole_hours().abs() > 23 {
+        return Err(Error::InvalidTime(value.to_string()));
     }
+    Ok(offset)
 }
 
 pub(crate) fn format_utc_offset(
@@ -310,10 +318,12 @@ pub fn parse_timestamp(value: &str) -> Result<DateTime> {
     )?;
 
     if let Ok(result) = OffsetDateTime::parse(value, &offset_format) {
+        check_utc_offset(result.offset(), value)?;
         Ok(result.into())
     } else if let Ok(result) =
         OffsetDateTime::parse(value, &offset_format_hours)
     {
+        check_utc_offset(result.offset(), value)?;
         Ok(result.into())
     } else if let Ok(result) = PrimitiveDateTime::parse(value, &utc_format) {
         let result = OffsetDateTime::now_utc().replace_date_time(result);
-- 
2.43.0


From fcab6469d66ede355f11f82fbaa49f5d3940e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 31/34] fix: a time with two offsets is not a time

In 10+2200-2359 everything in front of the last offset was given to the
ISO 8601 parser, which reads a time and an offset.
---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 8359478..3fc774b 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -97,7 +97,7 @@ pub fn parse_time(value: &str) -> Result<(Time, UtcOffset)> {
 
 fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
     let mut offset = UtcOffset::UTC;
-    let pos = value.find('-').or_else(|| value.find('+'));
+    let pos = value.find(['-', '+']);
     if let Some(pos) = pos {
         let offset_value = &value[pos..];
         offset = parse_utc_offset(offset_value)?;
-- 
2.43.0


From 65d4d7b2aabf930347b7fb18e1c94ca31818cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 32/34] fix: dashes without a time, a repeated T and a second
 zone behind a Z are accepted as times

---
 src/helper.rs   | 19 +++++++++++++------
 src/property.rs |  3 +++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 3fc774b..4ea4eed 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -63,12 +63,14 @@ pub fn parse_time_list(value: &str) -> Result<Vec<(Time, UtcOffset)>> {
 
 /// Parse a time.
 pub fn parse_time(value: &str) -> Result<(Time, UtcOffset)> {
-    // No more than the hour and the minute may be truncated
-    if value.starts_with("---") {
-        return Err(Error::InvalidTime(value.to_string()));
-    }
-
     if value.starts_with('-') {
+        // No more than the hour and the minute may be truncated,
+        // and what is left must begin with the minute or second
+        let rest = value.strip_prefix("--").unwrap_or(&value[1..]);
+        if !rest.starts_with(|c: char| c.is_ascii_digit()) {
+            return Err(Error::InvalidTime(value.to_string()));
+        }
+
         let mut parts = value.split("").collect::<Vec<_>>();
         let val = parts
             .get_mut(1)
@@ -104,10 +106,15 @@ fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
         value = &value[0..pos];
     }
 
-    if value.ends_with('Z') {
+    if pos.is_none() && value.ends_with('Z') {
         value = &value[0..value.len() - 1];
     }
 
+    // There is only one zone
+    if value.ends_with('Z') {
+        return Err(Error::InvalidTime(value.to_string()));
+    }
+
     // A date and time is not a time
     if value.rfind('T').is_some_and(|pos| pos > 0) {
         return Err(Error::InvalidTime(value.to_string()));
diff --git a/src/property.rs b/src/property.rs
index 75aae42..cbd182e 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -550,6 +550,9 @@ impl FromStr for DateAndOrTime {
 
     fn from_str(s: &str) -> Result<Self> {
         if let Some(time) = s.strip_prefix('T') {
+            if time.starts_with('T') {
+                return Err(Error::InvalidTime(s.to_string()));
+            }
             return Ok(Self::Time(parse_time(time)?));
         }
 
-- 
2.43.0


From 2db1f6cf9f2eea2839e6b5d2b5f36b9e4a017145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 33/34] fix: an ordinal or week date is not a date without a
 year

---
 src/helper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 4ea4eed..5e645d6 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -190,6 +190,10 @@ pub fn parse_date(value: &str) -> Result<Date> {
         if value.len() == 4 && value.starts_with("--") {
             date.push_str("01");
         }
+        // Only a month and a day in digits can follow the dashes
+        if date.len() != 8 || !date.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(Error::InvalidDate(value.to_string()));
+        }
         do_parse_date(&date)
     // Got a YYYY-MM format need to use 01 for the day
     } else if value.len() == 7 {
-- 
2.43.0


From 3b7807f697c520d14620710f82f3a0ae21b8d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 34/34] fix: a dash inside the month is not a date

---
 src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helper.rs b/src/helper.rs
index 5e645d6..4140cde 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -181,6 +181,7 @@ pub fn parse_date(value: &str) -> Result<Date> {
         }
         if let Some(val) = parts.get_mut(3)
             && *val == "-"
+            && value.starts_with("--")
         {
             *val = "01";
         }
-- 
2.43.0

