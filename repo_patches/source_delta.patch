From a712512d9ce694e3cfc6040c19ec8d1ab06f3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 01/26] fix: unescape TEXT values in a single pass

Chained replacements took the backslash produced by an escaped backslash
for the start of another escape, so `C:\\new` read back with a line break.
---
 src/parser/parsed_string.rs | 39 +++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/parser/parsed_string.rs b/src/parser/parsed_string.rs
index f7af4b5..f934033 100644
--- a/src/parser/parsed_string.rs
+++ b/src/parser/parsed_string.rs
@@ -36,24 +36,29 @@ impl<'a> ParseString<'a> {
     }
 
     pub fn unescape_text(self) -> ParseString<'a> {
-        if self.0.contains(r#"\\"#)
-            || self.0.contains(r#"\,"#)
-            || self.0.contains(r#"\;"#)
-            || self.0.contains(r#"\:"#)
-            || self.0.contains(r#"\N"#)
-            || self.0.contains(r#"\n"#)
-        {
-            self.0
-                .replace(r#"\\"#, r#"\"#)
-                .replace(r#"\,"#, ",")
-                .replace(r#"\;"#, ";")
-                .replace(r#"\:"#, ":")
-                .replace(r#"\N"#, "\n")
-                .replace(r#"\n"#, "\n")
-                .into()
-        } else {
-            self
+        if !self.0.contains('\\') {
+            return self;
         }
+
+        // has to be a single pass, otherwise the `\` produced by `\\` is taken for the start of another escape
+        let mut unescaped = String::with_capacity(self.0.len());
+        let mut chars = self.0.chars();
+        while let Some(c) = chars.next() {
+            if c != '\\' {
+                unescaped.push(c);
+                continue;
+            }
+            match chars.next() {
+                Some('n' | 'N') => unescaped.push('\n'),
+                Some(escaped @ ('\\' | ',' | ';' | ':')) => unescaped.push(escaped),
+                Some(other) => {
+                    unescaped.push('\\');
+                    unescaped.push(other);
+                }
+                None => unescaped.push('\\'),
+            }
+        }
+        unescaped.into()
     }
 }
 
-- 
2.43.0


From 41aea74b81f74139340e406bee1eceb8e0a2af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 02/26] fix: end a property value at the first line break

A value was searched for the next CRLF first, so in a document with mixed
line endings it swallowed every LF terminated line up to there, and in a
LF only document every property searched the whole rest of the input.
---
 src/parser/properties.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index c39bd16..46e90fc 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -12,7 +12,7 @@ use super::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_until, take_while},
+    bytes::complete::tag,
     character::complete::{line_ending, multispace0},
     combinator::{cut, opt},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
@@ -366,6 +366,19 @@ fn determin_value_type(name: &ParseString, params: &[Parameter]) -> Option<Value
         .or_else(|| ValueType::by_name(name.as_str()))
 }
 
+/// Everything up to the next line ending (CRLF or LF), or up to the end of the input if there is none
+fn property_value<'a, E: ParseError<&'a str>>(input: &'a str) -> IResult<&'a str, &'a str, E> {
+    let line_end = input.find('\n').unwrap_or(input.len());
+    let (line, _) = input.split_at(line_end);
+    let end = if line_end < input.len() && line.ends_with('\r') {
+        line_end - 1
+    } else {
+        line_end
+    };
+    let (value, rest) = input.split_at(end);
+    Ok((rest, value))
+}
+
 pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Property<'a>, E> {
@@ -385,16 +398,7 @@ pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                         parameters, // params
                     )),
                     context("property separator", tag(":")), // separator
-                    context(
-                        "property value",
-                        alt((
-                            take_until("\r\n"),
-                            take_until("\n"),
-                            // this is for single line prop parsing, just so I can leave off the '\n'
-                            take_while(|_| true),
-                        ))
-                        .map(ParseString::from),
-                    ),
+                    context("property value", property_value.map(ParseString::from)),
                 ),
                 context(
                     "no-value property",
-- 
2.43.0


From d8088b610834570ffa79f80912cbe6c3c481a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 03/26] fix: accept property names that merely start with END
 or BEGIN

ENDX or BEGINNER are legal property names and were rejected as if they
were component delimiters.
---
 src/parser/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index d04c886..c689937 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -16,13 +16,14 @@ use super::parsed_string::ParseString;
 pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    if input.get(0..=2) == Some("END") || input.get(0..=4) == Some("BEGIN") {
+    let (rest, key) = valid_key_sequence(input)?;
+    if key == "END" || key == "BEGIN" {
         IResult::Err(Err::Error(nom::error::make_error(
             input,
             nom::error::ErrorKind::Satisfy,
         )))
     } else {
-        valid_key_sequence(input)
+        Ok((rest, key))
     }
 }
 
-- 
2.43.0


From 080a783d3c5a0992f36cab16bb6f0d4ed72ac69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 04/26] fix: compare the whole component name on END lines

END:BB closed a component called B and left the rest of the name behind as
a stray property. BEGIN and END lines now have to consist of the name.
---
 src/parser/components.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 292841f..03c4953 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,9 +4,11 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{all_consuming, complete, cut},
+    character::complete::multispace1,
+    combinator::{all_consuming, complete, cut, eof, peek},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
+    sequence::terminated,
     Finish, IResult, Parser,
 };
 
@@ -244,10 +246,15 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
         .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
 }
 
+fn end_of_name<'a, E: ParseError<&'a str>>(input: &'a str) -> IResult<&'a str, &'a str, E> {
+    peek(alt((eof, multispace1)))(input)
+}
+
 pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Component<'a>, E> {
-    let (input, name) = line("BEGIN:", valid_key_sequence_cow)(input)?;
+    // the name has to be the whole rest of the line
+    let (input, name) = line("BEGIN:", terminated(valid_key_sequence_cow, end_of_name))(input)?;
 
     let (input, (properties, components)) = many_till(
         cut(context(
@@ -257,7 +264,13 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-        line("END:", cut(context("mismatching end", tag(name.as_str())))),
+        line(
+            "END:",
+            cut(context(
+                "mismatching end",
+                terminated(tag(name.as_str()), end_of_name),
+            )),
+        ),
     )
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
-- 
2.43.0


From 5c33fa0aeb1dd4f0eb89f8d3db402ff134e1b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 05/26] fix: read every root component and reject incomplete
 ones

Every root had to consume the whole input, otherwise all of them were
silently dropped: a document with two roots, with a blank line of spaces at
the end, or cut off anywhere was accepted as an empty one.
---
 src/parser/components.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 03c4953..58ea3d4 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,8 +4,8 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    character::complete::multispace1,
-    combinator::{all_consuming, complete, cut, eof, peek},
+    character::complete::{multispace0, multispace1},
+    combinator::{complete, cut, eof, peek, verify},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     sequence::terminated,
@@ -254,9 +254,18 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Component<'a>, E> {
     // the name has to be the whole rest of the line
-    let (input, name) = line("BEGIN:", terminated(valid_key_sequence_cow, end_of_name))(input)?;
+    let (input, name) = line(
+        "BEGIN:",
+        terminated(
+            verify(valid_key_sequence_cow, |name: &ParseString| {
+                !name.as_str().is_empty()
+            }),
+            end_of_name,
+        ),
+    )(input)?;
 
-    let (input, (properties, components)) = many_till(
+    // once it has begun a component has to be complete
+    let (input, (properties, components)) = cut(many_till(
         cut(context(
             "component",
             alt((
@@ -271,7 +280,7 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 terminated(tag(name.as_str()), end_of_name),
             )),
         ),
-    )
+    ))
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
         let mut components = Vec::new();
@@ -528,5 +537,15 @@ fn test_faulty_component() {
 pub fn components<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Vec<Component<'a>>, E> {
-    complete(many0(all_consuming(component)))(input)
+    let (input, components) = complete(many0(component))(input)?;
+    if components.is_empty() {
+        return Ok((input, components));
+    }
+
+    // nothing but blank lines may follow the last component
+    let (input, _) = cut(context(
+        "end of last component",
+        terminated(multispace0, eof),
+    ))(input)?;
+    Ok((input, components))
 }
-- 
2.43.0


From a025a10f524c62189b313b02378ab759a1381de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 06/26] fix: limit how deep parsed components can be nested

Parsing recursed for every BEGIN line, so a document of a few hundred
kilobytes overflowed the stack and aborted the process.
---
 src/parser/components.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 58ea3d4..5a898c8 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -6,14 +6,12 @@ use nom::{
     bytes::complete::tag,
     character::complete::{multispace0, multispace1},
     combinator::{complete, cut, eof, peek, verify},
-    error::{context, convert_error, ContextError, ParseError, VerboseError},
+    error::{context, convert_error, ContextError, ErrorKind, ParseError, VerboseError},
     multi::{many0, many_till},
     sequence::terminated,
     Finish, IResult, Parser,
 };
 
-#[cfg(test)]
-use nom::error::ErrorKind;
 use uuid::Uuid;
 
 #[cfg(test)]
@@ -250,8 +248,20 @@ fn end_of_name<'a, E: ParseError<&'a str>>(input: &'a str) -> IResult<&'a str, &
     peek(alt((eof, multispace1)))(input)
 }
 
+/// How deep components can be nested.
+///
+/// Parsing is recursive, without a limit a malicious document could overflow the stack.
+const MAX_DEPTH: usize = 100;
+
 pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
+) -> IResult<&'a str, Component<'a>, E> {
+    component_at_depth(input, 1)
+}
+
+fn component_at_depth<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
+    input: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, Component<'a>, E> {
     // the name has to be the whole rest of the line
     let (input, name) = line(
@@ -264,12 +274,21 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
         ),
     )(input)?;
 
+    if depth > MAX_DEPTH {
+        return Err(nom::Err::Failure(E::add_context(
+            input,
+            "components are nested too deeply",
+            E::from_error_kind(input, ErrorKind::TooLarge),
+        )));
+    }
+
     // once it has begun a component has to be complete
     let (input, (properties, components)) = cut(many_till(
         cut(context(
             "component",
             alt((
-                line_separated(component).map(ComponentChild::Component),
+                line_separated(|input| component_at_depth(input, depth + 1))
+                    .map(ComponentChild::Component),
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-- 
2.43.0


From e8e20e8ba3e8f9b32c275b573e7d22d5cee59441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 07/26] fix: read lists of quoted parameter values and keep
 them on their line

MEMBER="mailto:a","mailto:b" is legal but made the whole document fail, and
an empty quoted value was read as two quotes. A value without the closing
quote or without a following colon ran on into the next lines.
---
 src/parser/parameters.rs | 53 ++++++++++++++++++++++++++--------------
 src/properties.rs        |  3 ++-
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index efe1f45..f30253a 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -1,11 +1,11 @@
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, take_till1},
+    bytes::complete::{tag, take_till},
     character::complete::space0,
-    combinator::{eof, opt},
+    combinator::opt,
     error::{convert_error, ContextError, ParseError, VerboseError},
     multi::many0,
-    sequence::{delimited, preceded, separated_pair, tuple},
+    sequence::{preceded, separated_pair, tuple},
     Finish, IResult, Parser,
 };
 
@@ -133,6 +133,34 @@ fn parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     alt((pair_parameter, base_parameter))(input)
 }
 
+/// A value, quoted or not, or a comma separated list of those which is kept as it is
+fn parameter_value<'a, E: ParseError<&'a str>>(input: &'a str) -> IResult<&'a str, &'a str, E> {
+    let mut in_quotes = false;
+    let mut member_starts = true;
+    let end = input.find(|c: char| {
+        if c == '"' {
+            in_quotes = member_starts && !in_quotes;
+        }
+        member_starts = c == ',' && !in_quotes;
+        is_line_ending(c) || !in_quotes && (c == ';' || c == ':')
+    });
+    if in_quotes {
+        // never closed, so it isn't a quote
+        return take_till(|c| c == ';' || c == ':' || is_line_ending(c))(input);
+    }
+
+    let (value, rest) = input.split_at(end.unwrap_or(input.len()));
+    let unquoted = value
+        .strip_prefix('"')
+        .and_then(|value| value.strip_suffix('"'))
+        .filter(|value| !value.contains('"'));
+    Ok((rest, unquoted.unwrap_or(value)))
+}
+
+fn is_line_ending(c: char) -> bool {
+    c == '\r' || c == '\n'
+}
+
 fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Parameter<'a>, E> {
@@ -141,12 +169,7 @@ fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
         separated_pair(
             valid_key_sequence_cow, //key
             tag("="),
-            opt(alt((
-                eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
-                take_till1(|x| x == ';' || x == ':'),
-            )))
-            .map(remove_empty_string),
+            opt(parameter_value).map(remove_empty_string),
         ),
     )
     .map(|(key, val)| Parameter {
@@ -164,16 +187,8 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tuple((tag(";"), space0)),
             valid_key_sequence_cow, //key
         ),
-        opt(preceded(
-            tag("="),
-            alt((
-                eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
-                take_till1(|x| x == ';' || x == ':'),
-            ))
-            .map(ParseString::from),
-        ))
-        .map(remove_empty_string_parsed),
+        opt(preceded(tag("="), parameter_value.map(ParseString::from)))
+            .map(remove_empty_string_parsed),
     ))
     .map(|(key, val)| Parameter { key, val })
     .parse(input)
diff --git a/src/properties.rs b/src/properties.rs
index 07cae81..7c1709a 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -163,7 +163,8 @@ impl Property {
     }
 
     fn quote_if_contains_colon(input: &str) -> String {
-        if input.contains([':', ';']) {
+        // a value that comes with quotes is a list, its members are quoted already
+        if input.contains([':', ';']) && !input.contains('"') {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
             quoted.push_str(input);
-- 
2.43.0


From 577147179dc4d4e2685ff39184d712edbef6c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 08/26] fix: don't split a malformed line into several
 properties

A property without a value has to be the only thing on its line, `FOO b:c`
used to be read as the two properties `FOO` and `b:c`.
---
 src/parser/properties.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 46e90fc..96f6013 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -13,10 +13,10 @@ use super::{
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    character::complete::{line_ending, multispace0},
-    combinator::{cut, opt},
+    character::complete::{line_ending, multispace0, space0},
+    combinator::{cut, eof, opt, peek},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
-    sequence::{preceded, separated_pair, tuple},
+    sequence::{preceded, separated_pair, terminated, tuple},
     Finish, IResult, Parser,
 };
 
@@ -402,7 +402,11 @@ pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 ),
                 context(
                     "no-value property",
-                    valid_key_sequence_cow.map(|key| ((key, vec![]), ParseString::from(""))), // key and nothing else
+                    terminated(
+                        valid_key_sequence_cow,
+                        peek(tuple((space0, alt((line_ending, eof))))),
+                    )
+                    .map(|key| ((key, vec![]), ParseString::from(""))), // key and nothing else
                 ),
             )),
             opt(line_ending),
-- 
2.43.0


From e257246801cf49b25bc2ca82e2ed4e8567cd6b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 09/26] fix: escape and quote when writing parsed properties

parser::Property wrote TEXT values the way they had been unescaped and
quoted parameter values without their quotes, so a line break, a semicolon
or a colon in there made a different document.
---
 src/parser/properties.rs | 18 ++++++++++++++++--
 src/properties.rs        |  4 ++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 96f6013..67d2d21 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -69,16 +69,30 @@ impl Property<'_> {
         write!(line, "{}", self.name.as_str())?;
         for Parameter { key, val } in &self.params {
             if let Some(val) = val {
-                write!(line, ";{}={}", key.as_str(), val.as_str())?;
+                let val = crate::Property::quote_if_contains_colon(val.as_str());
+                write!(line, ";{}={}", key.as_str(), val)?;
             } else {
                 write!(line, ";{}", key.as_str())?;
             }
         }
-        write!(line, ":{}", self.val.as_str())?;
+        match determin_value_type(&self.name, &self.params) {
+            Some(ValueType::Text) => write!(line, ":{}", self.escape_text())?,
+            _ => write!(line, ":{}", self.val.as_str())?,
+        }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
     }
 
+    fn escape_text(&self) -> String {
+        let escaped = crate::Property::escape_text(self.val.as_str());
+        match self.name.as_str() {
+            // here the value is a list and these are its separators
+            "CATEGORIES" | "RESOURCES" => escaped.replace(r"\,", ","),
+            "REQUEST-STATUS" => escaped.replace(r"\;", ";"),
+            _ => escaped,
+        }
+    }
+
     pub(crate) fn is_multi_property(&self) -> bool {
         MULTIS.contains(&self.name.as_str())
     }
diff --git a/src/properties.rs b/src/properties.rs
index 7c1709a..f96057f 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -154,7 +154,7 @@ impl Property {
     }
 
     /// <https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.11>
-    fn escape_text(input: &str) -> String {
+    pub(crate) fn escape_text(input: &str) -> String {
         input
             .replace('\\', r#"\\"#)
             .replace(',', r#"\,"#)
@@ -162,7 +162,7 @@ impl Property {
             .replace('\n', r#"\N"#)
     }
 
-    fn quote_if_contains_colon(input: &str) -> String {
+    pub(crate) fn quote_if_contains_colon(input: &str) -> String {
         // a value that comes with quotes is a list, its members are quoted already
         if input.contains([':', ';']) && !input.contains('"') {
             let mut quoted = String::with_capacity(input.len() + 2);
-- 
2.43.0


From 2b0ad4836e435f6a9df4227f2149f28d912634a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 10/26] fix: use the name LAST-MODIFIED

LAST_MODIFIED is not a property any other application knows about.
---
 src/components.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 117fbf8..0de7e77 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -283,16 +283,16 @@ pub trait Component {
         self.property_value("URL")
     }
 
-    /// Set the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
+    /// Set the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
     ///
     /// This must be a UTC date-time value.
     fn last_modified(&mut self, dt: DateTime<Utc>) -> &mut Self {
-        self.add_property("LAST_MODIFIED", format_utc_date_time(dt))
+        self.add_property("LAST-MODIFIED", format_utc_date_time(dt))
     }
 
-    /// Gets the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
+    /// Gets the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
     fn get_last_modified(&self) -> Option<DateTime<Utc>> {
-        parse_utc_date_time(self.property_value("LAST_MODIFIED")?)
+        parse_utc_date_time(self.property_value("LAST-MODIFIED")?)
     }
 
     /// Set the [`CREATED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.1) [`Property`]
-- 
2.43.0


From 92f2a4b92f9a76788b6e388cdb24765e7b5d217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 11/26] fix: get the timezone from TIMEZONE-ID

That is where timezone() puts it, the getter looked for TIMEZONE_ID.
---
 src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index 118142c..e1aa9af 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -177,9 +177,9 @@ impl Calendar {
         self
     }
 
-    /// Gets the value of the `TIMEZONE_ID` or `X-WR-TIMEZONE` property.
+    /// Gets the value of the `TIMEZONE-ID` or `X-WR-TIMEZONE` property.
     pub fn get_timezone(&self) -> Option<&str> {
-        self.property_value("TIMEZONE_ID")
+        self.property_value("TIMEZONE-ID")
             .or_else(|| self.property_value("X-WR-TIMEZONE"))
     }
 
-- 
2.43.0


From d584f2c498f2807606354ea7aa7dbdc5f090705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 12/26] fix: read durations with a sign

The trigger of an alarm before an event, e.g. -PT15M, was not understood,
not even when it was written by this library.
---
 src/components/date_time.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 67b6c68..6b7d7f0 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -22,9 +22,15 @@ pub(crate) fn format_utc_date_time(utc_dt: DateTime<Utc>) -> String {
 }
 
 pub(crate) fn parse_duration(s: &str) -> Option<Duration> {
-    iso8601::duration(s)
+    // the sign is not part of ISO 8601
+    let (is_negative, unsigned) = match s.strip_prefix('-') {
+        Some(unsigned) => (true, unsigned),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
+    };
+    iso8601::duration(unsigned)
         .ok()
         .and_then(|iso| Duration::from_std(iso.into()).ok())
+        .map(|duration| if is_negative { -duration } else { duration })
 }
 
 pub(crate) fn naive_date_to_property(date: NaiveDate, key: &str) -> Property {
-- 
2.43.0


From c154bf9d0dcf0a7d67c27c09250f0cb9dfae22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 13/26] fix: keep the timezone of an absolute alarm trigger

It is written with a TZID parameter which was ignored on reading, turning
the trigger into a floating time.
---
 src/components/alarm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/components/alarm.rs b/src/components/alarm.rs
index 3b45d89..006e48c 100644
--- a/src/components/alarm.rs
+++ b/src/components/alarm.rs
@@ -519,7 +519,9 @@ pub mod properties {
             match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                 ("TRIGGER", Some("DATE-TIME")) => {
                     // date-time needs to be qualified "VALUE=DATE-TIME"
-                    CalendarDateTime::from_str(prop.value()).map(Trigger::from)
+                    CalendarDateTime::from_property(prop)
+                        .map(Trigger::from)
+                        .ok_or(())
                 }
                 ("TRIGGER", Some("DURATION") | None) => {
                     // duration is the assumed default or "VALUE=DURATION"
-- 
2.43.0


From 593ab52dd0467cf531f717be019b315e66915e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 14/26] fix: fold lines at 75 octets and look at the right
 character

The last line of a folded property could be 76 octets long. The character
at the fold was looked up by counting bytes as characters, which looked at
another character and took quadratic time for long lines.
---
 src/properties.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index f96057f..e410c4b 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -395,10 +395,10 @@ pub(crate) fn fold_line(line: &str) -> String {
     let mut pos = 0;
     let mut next_pos = LIMIT;
 
-    while bytes_remaining > LIMIT {
+    while next_pos < len {
         let pos_is_whitespace = |line: &str, next_pos| {
-            line.chars()
-                .nth(next_pos)
+            line.get(next_pos..)
+                .and_then(|rest| rest.chars().next())
                 .map(char::is_whitespace)
                 .unwrap_or(false)
         };
@@ -408,9 +408,6 @@ pub(crate) fn fold_line(line: &str) -> String {
 
         while !line.is_char_boundary(next_pos) {
             next_pos -= 1;
-            if pos_is_whitespace(line, next_pos) {
-                next_pos -= 1;
-            }
         }
         ret.push_str(&line[pos..next_pos]);
         ret.push_str("\r\n ");
-- 
2.43.0


From abf9cdb4860b00ec09257ead24493c13d2cda57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 15/26] fix: write parameters in a stable order

They were written in the order of a hash map, so equal calendars were
serialized differently from one run to the next.
---
 src/properties.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/properties.rs b/src/properties.rs
index e410c4b..edfeb1e 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -181,7 +181,10 @@ impl Property {
         let mut line = String::with_capacity(150);
 
         write!(line, "{}", self.key)?;
-        for Parameter { key, val } in self.params.values() {
+        // the order of a `HashMap` is random
+        let mut params: Vec<_> = self.params.values().collect();
+        params.sort_by(|a, b| a.key.cmp(&b.key));
+        for Parameter { key, val } in params {
             write!(line, ";{}={}", key, Self::quote_if_contains_colon(val))?;
         }
         let value_type = self.value_type();
-- 
2.43.0


From 833f371055cce5d634b01dcfb408da1fcd2469e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 16/26] fix: keep properties that occur more than once

Of every repeated property that is not in the list of multi properties
(e.g. RELATED-TO, RRULE, REQUEST-STATUS, X- properties) only the last one
survived the conversion into a typed component.
---
 src/parser/components.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 5a898c8..a77f8a4 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -134,22 +134,20 @@ impl From<Component<'_>> for Other {
 impl From<Component<'_>> for InnerComponent {
     fn from(component: Component) -> Self {
         let mut from_component = Self {
-            properties: component
-                .properties
-                .iter()
-                .filter(|p| !p.is_multi_property())
-                .map(|p| (p.name.clone().into_owned().into(), p.to_owned().into()))
-                .collect(),
+            properties: Default::default(),
             components: component.components.into_iter().map(Other::from).collect(),
             multi_properties: Default::default(),
         };
 
-        for p in component
-            .properties
-            .into_iter()
-            .filter(Property::is_multi_property)
-        {
-            from_component.insert_multi(p);
+        for p in component.properties {
+            // no property may get lost, not even one that should occur only once
+            if p.is_multi_property() || from_component.properties.contains_key(p.name.as_str()) {
+                from_component.insert_multi(p);
+            } else {
+                from_component
+                    .properties
+                    .insert(p.name.as_str().to_owned(), p.into());
+            }
         }
 
         from_component
-- 
2.43.0


From aa901499c37ef6fc8f80511223d22e75dd01e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 17/26] fix: treat the names and addresses set by the builders
 as TEXT

The name, description and timezone of a calendar and the address of a venue
are text, a line break in there was written as it is and broke the document.
---
 src/value_types.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/value_types.rs b/src/value_types.rs
index 2cad232..426a6df 100644
--- a/src/value_types.rs
+++ b/src/value_types.rs
@@ -95,6 +95,15 @@ impl ValueType {
             // "An IANA-registered property name" => Any parameter can be specified on this property.
             // "X-"/* ... */ => Some(Text),       // any type 3.8.8.2
             "REQUEST-STATUS" => Some(Text), // 3.8.8.3
+
+            // calendar properties, RFC 7986 and their widely used predecessors
+            "NAME" | "X-WR-CALNAME" => Some(Text),
+            "X-WR-CALDESC" => Some(Text),
+            "TIMEZONE-ID" | "X-WR-TIMEZONE" => Some(Text),
+
+            // venue properties, draft-norris-ical-venue
+            "STREET-ADDRESS" | "EXTENDED-ADDRESS" | "LOCALITY" | "REGION" | "COUNTRY"
+            | "POSTAL-CODE" => Some(Text),
             _ => None,
         }
     }
-- 
2.43.0


From dc40b29ac115caf8770711f054ae483445a07c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 18/26] fix: unfold before parsing a single property

A serialized property of more than 75 octets was cut off at the first fold.
---
 src/parser/properties.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 67d2d21..f3e0690 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -8,6 +8,7 @@ use crate::{parser::utils::valid_key_sequence_cow, properties::fold_line, value_
 use super::{
     parameters::{parameters, Parameter},
     parsed_string::ParseString,
+    unfold,
     utils::property_key,
 };
 use nom::{
@@ -133,7 +134,7 @@ impl FromStr for crate::Property {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Property::try_from(s)?.into())
+        Ok(Property::try_from(unfold(s).as_str())?.into())
     }
 }
 
-- 
2.43.0


From 1e30f37b6183deb0e94a31dcfc562df400276e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 19/26] fix: keep the calendar properties when converting from
 components

They were replaced by the default ones.
---
 src/parser/calendar.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/calendar.rs b/src/parser/calendar.rs
index 218a8a8..d74a2e3 100644
--- a/src/parser/calendar.rs
+++ b/src/parser/calendar.rs
@@ -76,11 +76,15 @@ impl<'a> From<Vec<Component<'a>>> for crate::Calendar {
             .map(|first_root| first_root.name == "VCALENDAR")
             .unwrap_or(false);
 
-        let components: Vec<Component<'a>> = if root_is_calendar {
-            components.swap_remove(0).components
-        } else {
-            components
-        };
+        if root_is_calendar {
+            let root = components.swap_remove(0);
+            return Calendar {
+                properties: root.properties,
+                components: root.components,
+            }
+            .into();
+        }
+
         components
             .into_iter()
             .map(|c: Component<'a>| {
-- 
2.43.0


From c8222891ab4628e418880410e92088812d694885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 20/26] fix: never write a line break inside of a value

A line break in a value that is not TEXT was written as it is, so a value
could add properties or components of its own.
---
 src/parser/properties.rs | 2 +-
 src/properties.rs        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index f3e0690..1a82c37 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -78,7 +78,7 @@ impl Property<'_> {
         }
         match determin_value_type(&self.name, &self.params) {
             Some(ValueType::Text) => write!(line, ":{}", self.escape_text())?,
-            _ => write!(line, ":{}", self.val.as_str())?,
+            _ => write!(line, ":{}", self.val.as_str().replace('\n', r"\n"))?,
         }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
diff --git a/src/properties.rs b/src/properties.rs
index edfeb1e..d68be9e 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -190,7 +190,8 @@ impl Property {
         let value_type = self.value_type();
         match value_type {
             Some(ValueType::Text) => write!(line, ":{}", Self::escape_text(&self.val))?,
-            _ => write!(line, ":{}", self.val)?,
+            // there is no way to escape a line break here, but it must not start a new property
+            _ => write!(line, ":{}", self.val.replace('\n', r"\n"))?,
         }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
-- 
2.43.0


From b0a63127a64c8229a1db51855db0329e24440aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 21/26] fix: report junk after a component name instead of
 reading nothing

---
 src/parser/components.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index a77f8a4..1eeb78a 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -268,7 +268,7 @@ fn component_at_depth<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             verify(valid_key_sequence_cow, |name: &ParseString| {
                 !name.as_str().is_empty()
             }),
-            end_of_name,
+            cut(context("end of component name", end_of_name)),
         ),
     )(input)?;
 
-- 
2.43.0


From 91ee285a914061cd9391ba99e771d8721344ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 22/26] fix: nothing may follow a component name on its line

---
 src/parser/components.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 1eeb78a..403f7f0 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,11 +4,11 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    character::complete::{multispace0, multispace1},
+    character::complete::{line_ending, multispace0, space0},
     combinator::{complete, cut, eof, peek, verify},
     error::{context, convert_error, ContextError, ErrorKind, ParseError, VerboseError},
     multi::{many0, many_till},
-    sequence::terminated,
+    sequence::{preceded, terminated},
     Finish, IResult, Parser,
 };
 
@@ -243,7 +243,7 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
 }
 
 fn end_of_name<'a, E: ParseError<&'a str>>(input: &'a str) -> IResult<&'a str, &'a str, E> {
-    peek(alt((eof, multispace1)))(input)
+    peek(preceded(space0, alt((eof, line_ending))))(input)
 }
 
 /// How deep components can be nested.
-- 
2.43.0


From 363b4e9a298e464ab834a051b280bb5bf7c80294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 23/26] fix: read refresh intervals with a sign

---
 src/calendar.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index e1aa9af..2557648 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -1,7 +1,10 @@
 use chrono::Duration;
 use std::{fmt, mem, ops::Deref};
 
-use crate::{components::*, Parameter, Property};
+use crate::{
+    components::{date_time::parse_duration, *},
+    Parameter, Property,
+};
 
 mod calendar_component;
 
@@ -198,16 +201,11 @@ impl Calendar {
     /// Gets the value of the `REFRESH-INTERVAL` or `X-PUBLISHED-TTL` property.
     pub fn get_ttl(&self) -> Option<Duration> {
         self.property_value("REFRESH-INTERVAL")
-            .and_then(|refresh_interval| iso8601::duration(refresh_interval).ok())
+            .and_then(parse_duration)
             .or_else(|| {
                 self.property_value("X-PUBLISHED-TTL")
-                    .and_then(|published_ttl| iso8601::duration(published_ttl).ok())
+                    .and_then(parse_duration)
             })
-            .map(std::time::Duration::from)
-            .map(Duration::from_std)
-            .transpose()
-            .ok()
-            .flatten()
     }
 
     /// End of builder pattern.
-- 
2.43.0


From 19e8cfeb44c4f93e5b6c6ec9650adc9007f2aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 24/26] fix: errors far to the right of a long line do not
 panic

---
 src/parser/components.rs |  8 ++++----
 src/parser/mod.rs        |  7 ++++---
 src/parser/parameters.rs |  9 ++++++---
 src/parser/properties.rs |  6 +++---
 src/parser/utils.rs      | 38 ++++++++++++++++++++++++++++++++++++--
 5 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 403f7f0..8729171 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -6,7 +6,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{line_ending, multispace0, space0},
     combinator::{complete, cut, eof, peek, verify},
-    error::{context, convert_error, ContextError, ErrorKind, ParseError, VerboseError},
+    error::{context, ContextError, ErrorKind, ParseError, VerboseError},
     multi::{many0, many_till},
     sequence::{preceded, terminated},
     Finish, IResult, Parser,
@@ -20,7 +20,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{line, line_separated, valid_key_sequence_cow},
+    utils::{describe_error, line, line_separated, valid_key_sequence_cow},
     Property,
 };
 
@@ -121,7 +121,7 @@ impl<'a> TryFrom<&'a str> for Component<'a> {
         component(input)
             .finish()
             .map(|(_, x)| x)
-            .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+            .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
     }
 }
 
@@ -239,7 +239,7 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
     component(input)
         .finish()
         .map(|(_, component)| component)
-        .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+        .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
 }
 
 fn end_of_name<'a, E: ParseError<&'a str>>(input: &'a str) -> IResult<&'a str, &'a str, E> {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5fc6598..fda943d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@
 //!
 //!
 #![allow(missing_docs)]
-use nom::{error::convert_error, error::VerboseError, Finish};
+use nom::{error::VerboseError, Finish};
 
 mod calendar;
 pub(crate) mod components;
@@ -42,6 +42,7 @@ pub use properties::Property;
 
 use components::*;
 
+use utils::describe_error;
 pub use utils::unfold;
 
 /// Parse iCalendar file content into an array of [`Component`]s
@@ -78,7 +79,7 @@ pub fn read_calendar(input: &str) -> Result<Calendar<'_>, String> {
                 }
             }
         })
-        .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+        .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
 }
 
 #[test]
@@ -95,5 +96,5 @@ pub fn read_components(input: &str) -> Result<Vec<Component<'_>>, String> {
     components(input)
         .finish()
         .map(|(_, components)| components)
-        .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+        .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
 }
diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index f30253a..cb63ec4 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -3,7 +3,7 @@ use nom::{
     bytes::complete::{tag, take_till},
     character::complete::space0,
     combinator::opt,
-    error::{convert_error, ContextError, ParseError, VerboseError},
+    error::{ContextError, ParseError, VerboseError},
     multi::many0,
     sequence::{preceded, separated_pair, tuple},
     Finish, IResult, Parser,
@@ -12,7 +12,10 @@ use nom::{
 #[cfg(test)]
 use nom::error::ErrorKind;
 
-use super::{parsed_string::ParseString, utils::valid_key_sequence_cow};
+use super::{
+    parsed_string::ParseString,
+    utils::{describe_error, valid_key_sequence_cow},
+};
 
 /// Zero-copy version of [`crate::properties::Parameter`]
 #[derive(PartialEq, Eq, Debug, Clone)]
@@ -38,7 +41,7 @@ impl<'a> TryFrom<&'a str> for Parameter<'a> {
         parameter(input)
             .finish()
             .map(|(_, x)| x)
-            .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+            .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
     }
 }
 
diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 1a82c37..052e67c 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -9,14 +9,14 @@ use super::{
     parameters::{parameters, Parameter},
     parsed_string::ParseString,
     unfold,
-    utils::property_key,
+    utils::{describe_error, property_key},
 };
 use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{line_ending, multispace0, space0},
     combinator::{cut, eof, opt, peek},
-    error::{context, convert_error, ContextError, ParseError, VerboseError},
+    error::{context, ContextError, ParseError, VerboseError},
     sequence::{preceded, separated_pair, terminated, tuple},
     Finish, IResult, Parser,
 };
@@ -112,7 +112,7 @@ impl<'a> TryFrom<&'a str> for Property<'a> {
         property(input)
             .finish()
             .map(|(_, x)| x)
-            .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+            .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
     }
 }
 
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index c689937..7da2cbf 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -2,10 +2,10 @@ use nom::{
     bytes::complete::{tag_no_case, take_while},
     character::complete::line_ending,
     combinator::complete,
-    error::{ContextError, ParseError},
+    error::{convert_error, ContextError, ParseError, VerboseError},
     multi::many0,
     sequence::{delimited, preceded},
-    Err, IResult, Parser,
+    Err, IResult, Offset, Parser,
 };
 #[cfg(test)]
 use pretty_assertions::assert_eq;
@@ -59,6 +59,40 @@ pub fn line_separated<'a, O, E: ParseError<&'a str>, F: Parser<&'a str, O, E>>(
     delimited(many0(line_ending), f, many0(line_ending))
 }
 
+/// Describes a parse error and where in the input it is.
+///
+/// [`convert_error`] uses the column as the width of a format argument, which panics
+/// above [`u16::MAX`], so an error further to the right is described by its position only.
+pub(crate) fn describe_error(input: &str, error: VerboseError<&str>) -> String {
+    let position = |rest: &str| {
+        let before = &input[..input.offset(rest)];
+        let line_begin = before.rfind('\n').map_or(0, |newline| newline + 1);
+        (
+            before.matches('\n').count() + 1,
+            before.len() - line_begin + 1,
+        )
+    };
+
+    let max_column = usize::from(u16::MAX);
+    if error
+        .errors
+        .iter()
+        .all(|(rest, _)| position(rest).1 <= max_column)
+    {
+        return convert_error(input, error);
+    }
+
+    error
+        .errors
+        .iter()
+        .enumerate()
+        .map(|(i, (rest, kind))| {
+            let (line, column) = position(rest);
+            format!("{}: at line {}, column {}: {:?}\n\n", i, line, column, kind)
+        })
+        .collect()
+}
+
 /// Normalize content lines.
 ///
 /// This simplifies line endings and unfolds breaks to simplify parsing.
-- 
2.43.0


From 57c661138d374abc108824c98ae123d70e99d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 25/26] fix: rewriting a parsed component named CALENDAR adds
 nothing to it

---
 src/parser/components.rs | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 8729171..e23c026 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -1,6 +1,5 @@
 use std::{fmt, str::FromStr};
 
-use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
@@ -12,8 +11,6 @@ use nom::{
     Finish, IResult, Parser,
 };
 
-use uuid::Uuid;
-
 #[cfg(test)]
 use super::parameters::Parameter;
 use super::{
@@ -29,7 +26,7 @@ use pretty_assertions::assert_eq;
 
 use crate::{
     calendar::CalendarComponent,
-    components::{date_time::format_utc_date_time, InnerComponent, Other},
+    components::{InnerComponent, Other},
 };
 
 /// The parsing equivalent of [`crate::components::Component`]
@@ -69,24 +66,6 @@ pub(crate) trait LikeComponent<'a> {
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
         write_crlf!(out, "BEGIN:{}", self.name())?;
 
-        if self.name().to_lowercase() == "calendar" {
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "DTSTAMP")
-            {
-                let now = Utc::now();
-                write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
-            }
-
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "UID")
-            {
-                write_crlf!(out, "UID:{}", Uuid::new_v4())?;
-            }
-        }
         for property in self.properties() {
             property.fmt_write(out)?;
         }
-- 
2.43.0


From f3805e36de1b3e86fabbc7a6d5388dd96c2782ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 26/26] fix: fold the BEGIN and END lines of components with
 long names

---
 src/components.rs        | 5 +++--
 src/parser/components.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 0de7e77..b02eb75 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -92,7 +92,8 @@ pub trait Component {
 
     /// Writes [`Component`] using [`std::fmt`].
     fn fmt_write<W: fmt::Write>(&self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.component_kind())?;
+        let kind = self.component_kind();
+        write_crlf!(out, "{}", fold_line(&format!("BEGIN:{}", kind)))?;
 
         if !self.properties().contains_key("DTSTAMP") {
             let now = Utc::now();
@@ -115,7 +116,7 @@ pub trait Component {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.component_kind())?;
+        write_crlf!(out, "{}", fold_line(&format!("END:{}", kind)))?;
         Ok(())
     }
 
diff --git a/src/parser/components.rs b/src/parser/components.rs
index e23c026..f64aeeb 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -27,6 +27,7 @@ use pretty_assertions::assert_eq;
 use crate::{
     calendar::CalendarComponent,
     components::{InnerComponent, Other},
+    properties::fold_line,
 };
 
 /// The parsing equivalent of [`crate::components::Component`]
@@ -64,7 +65,7 @@ pub(crate) trait LikeComponent<'a> {
 
     /// Writes `Component` into a `Writer` using `std::fmt`.
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("BEGIN:{}", self.name())))?;
 
         for property in self.properties() {
             property.fmt_write(out)?;
@@ -74,7 +75,7 @@ pub(crate) trait LikeComponent<'a> {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("END:{}", self.name())))?;
         Ok(())
     }
 }
-- 
2.43.0

