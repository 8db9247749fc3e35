From 0d6f0cf98bf38581e75ff81c22235c35f8e52cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 01/18] fix: decode the \b string escape as backspace (U+0008)

It was decoded as U+0010: the code point was written in hexadecimal with a
decimal value.
---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index cafdd76..4479a6c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -236,7 +236,7 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
             '\\' => {
                 match chars.next().expect("slash cant be at the end") {
                     c @ '"' | c @ '\\' | c @ '/' => res.push(c),
-                    'b' => res.push('\u{0010}'),
+                    'b' => res.push('\u{0008}'),
                     'f' => res.push('\u{000C}'),
                     'n' => res.push('\n'),
                     'r' => res.push('\r'),
-- 
2.43.0


From ca5cbd913a1764e2acb8ba97cde9942d24a2f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 02/18] fix: require four hexadecimal digits after \u in
 strings

u32::from_str_radix accepts a leading plus sign, so "\u+041" was accepted
and decoded as "A".
---
 src/common.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4479a6c..d2a0b0f 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -245,7 +245,15 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
                         temp_code_point.clear();
                         for _ in 0..4 {
                             match chars.next() {
-                                Some(inner_c) => temp_code_point.push(inner_c),
+                                Some(inner_c) if inner_c.is_ascii_hexdigit() => {
+                                    temp_code_point.push(inner_c)
+                                }
+                                Some(inner_c) => {
+                                    return Err(Error::Unexpected(Info::Owned(
+                                        format_args!("bad hex digit {:?} in \\u escape", inner_c)
+                                            .to_string(),
+                                    )))
+                                }
                                 None => {
                                     return Err(Error::Unexpected(Info::Owned(
                                         format_args!(
-- 
2.43.0


From d5ba842c93453b0c176d2a97d2da8a0c987dd354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 03/18] fix: only spaces and tabs are block string indentation

Other Unicode white space was counted too, in bytes, so removing the common
indentation could slice inside a character and panic, for example on
"""\n  a\n\u{3000}b\n""".
---
 src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index d2a0b0f..71795ff 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -179,7 +179,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
     let mut first_non_empty_line: Option<usize> = None;
     let mut last_non_empty_line = 0;
     for (idx, line) in lines.clone().enumerate() {
-        let indent = line.len() - line.trim_start().len();
+        // Only spaces and tabs are white space here. Other Unicode spaces are content, and
+        // counting their bytes could make the slice below fall inside a character.
+        let indent = line.len() - line.trim_start_matches(&[' ', '\t'][..]).len();
         if indent == line.len() {
             continue;
         }
-- 
2.43.0


From 2dbe08d49cbba1b05970138be4338aff9841a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 04/18] fix: blank block string lines shorter than the
 indentation become empty

They were kept as they are, so white space that belongs to the indentation
became part of the value.
---
 src/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 71795ff..1c51ec4 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -208,8 +208,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
         .take(last_non_empty_line - first_non_empty_line + 1)
         // Remove indent, except the first line.
         .map(|(idx, line)| {
-            if idx != 0 && line.len() >= common_indent {
-                &line[common_indent..]
+            if idx != 0 {
+                // Blank lines may be shorter than the common indentation.
+                line.get(common_indent..).unwrap_or("")
             } else {
                 line
             }
-- 
2.43.0


From 966f5b09faed8c427a320e5099d7687fd5dd750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 05/18] fix: print string escapes in hexadecimal and only for
 control characters

The code point was printed in decimal, so U+0010 became \u0016, and
characters above U+FFFF became escapes of more than four digits.
---
 src/format.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index de24163..2ff40f8 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -129,7 +129,7 @@ impl<'a> Formatter<'a> {
         for c in s.chars() {
             match c {
                 '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{FFFF}' => {}
+                '\r' | '\t' | '\u{0020}'..='\u{10FFFF}' => {}
                 _ => has_nonprintable = true,
             }
         }
@@ -143,8 +143,8 @@ impl<'a> Formatter<'a> {
                     '\t' => self.write(r"\t"),
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
-                    '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
-                    _ => write!(&mut self.buf, "\\u{:04}", c as u32).unwrap(),
+                    '\u{0020}'..='\u{10FFFF}' => self.buf.push(c),
+                    _ => write!(&mut self.buf, "\\u{:04x}", c as u32).unwrap(),
                 }
             }
             self.buf.push('"');
-- 
2.43.0


From 46252462f18a2376d9ac044565913e1f24ba848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 06/18] fix: print strings that a block string cannot hold as
 quoted strings

Strings with a line feed were always printed as block strings, which lost
leading and trailing blank lines, common indentation, carriage returns and
lines of white space when read back.
---
 src/format.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 2ff40f8..752dcbb 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -133,7 +133,7 @@ impl<'a> Formatter<'a> {
                 _ => has_nonprintable = true,
             }
         }
-        if !has_newline || has_nonprintable {
+        if !has_newline || has_nonprintable || !fits_block_string(s) {
             use std::fmt::Write;
             self.buf.push('"');
             for c in s.chars() {
@@ -153,7 +153,7 @@ impl<'a> Formatter<'a> {
             self.endline();
             self.indent += self.style.indent;
             for line in s.lines() {
-                if !line.trim().is_empty() {
+                if !line.is_empty() {
                     self.indent();
                     self.write(&line.replace(r#"""""#, r#"\""""#));
                 }
@@ -177,6 +177,19 @@ impl<'a> Formatter<'a> {
     }
 }
 
+/// Whether a block string can hold this value
+///
+/// Reading a block string normalizes line endings and removes the common indentation of its
+/// lines and the blank lines at both ends, so a value that has any of these must be quoted.
+fn fits_block_string(s: &str) -> bool {
+    let is_blank = |line: &str| line.trim_matches(&[' ', '\t'][..]).is_empty();
+    !s.contains('\r')
+        && !s.split('\n').next().map_or(true, is_blank)
+        && !s.split('\n').next_back().map_or(true, is_blank)
+        && !s.split('\n').any(|line| !line.is_empty() && is_blank(line))
+        && s.split('\n').any(|line| !line.is_empty() && !line.starts_with(&[' ', '\t'][..]))
+}
+
 pub(crate) fn format_directives<'a, T>(dirs: &[Directive<'a, T>], f: &mut Formatter)
 where
     T: crate::common::Text<'a>,
-- 
2.43.0


From 152de2a73d307c5a8ff37629403966c557007cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 07/18] fix: print large floats as float literals

1e300 was printed as an integer literal of 301 digits, which cannot be read
back.
---
 src/query/format.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 872dd3d..d6151f7 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -249,7 +249,15 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
                 f.write(name.as_ref());
             }
             Value::Int(ref num) => f.write(&format!("{}", num.0)),
-            Value::Float(val) => f.write(&format!("{}", val)),
+            Value::Float(val) => {
+                let text = format!("{}", val);
+                if text.contains('.') || text.parse::<i64>().is_ok() {
+                    f.write(&text);
+                } else {
+                    // would be an integer literal that is out of range
+                    f.write(&format!("{:e}", val));
+                }
+            }
             Value::String(ref val) => f.write_quoted(val),
             Value::Boolean(true) => f.write("true"),
             Value::Boolean(false) => f.write("false"),
-- 
2.43.0


From 26d3c03fe8879e6f237f055727f9505e1df4917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 08/18] fix: reject float literals that are out of range

They became an infinity, which has no literal and was printed as the enum
value `inf`.
---
 src/common.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 1c51ec4..f2dc654 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -165,7 +165,12 @@ where
     S: Text<'a>,
 {
     kind(T::FloatValue)
-        .and_then(|tok| tok.value.parse())
+        .and_then(|tok| match tok.value.parse::<f64>() {
+            Ok(value) if value.is_finite() => Ok(value),
+            _ => Err(Error::Unexpected(Info::Owned(
+                format_args!("float {:?} out of range", tok.value).to_string(),
+            ))),
+        })
         .map(Value::Float)
         .parse_stream(input)
         .into_result()
-- 
2.43.0


From 69ec506a270ae2ed5c4f6cdfc8480635708c0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 09/18] fix: print the variables of subscriptions like those of
 queries

They were dropped when the subscription had no name, and printed without a
separator otherwise.
---
 src/query/format.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index d6151f7..1be5eef 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -193,13 +193,15 @@ impl<'a, T: Text<'a>> Displayable for Subscription<'a, T> {
         if let Some(ref name) = self.name {
             f.write(" ");
             f.write(name.as_ref());
-            if !self.variable_definitions.is_empty() {
-                f.write("(");
-                for var in &self.variable_definitions {
-                    var.display(f);
-                }
-                f.write(")");
+        }
+        if !self.variable_definitions.is_empty() {
+            f.write("(");
+            self.variable_definitions[0].display(f);
+            for var in &self.variable_definitions[1..] {
+                f.write(", ");
+                var.display(f);
             }
+            f.write(")");
         }
         format_directives(&self.directives, f);
         f.write(" ");
-- 
2.43.0


From b9f052cc0cfecba17c84582107e890f6f0da0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 10/18] fix: always print the `on` of a directive definition

The parser requires it even when there are no locations, so the printed form
of such a definition could not be read back.
---
 src/schema/format.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/schema/format.rs b/src/schema/format.rs
index 6ebc945..b27d251 100644
--- a/src/schema/format.rs
+++ b/src/schema/format.rs
@@ -462,17 +462,16 @@ where
         if self.repeatable {
             f.write(" repeatable");
         }
-        if !self.locations.is_empty() {
-            f.write(" on ");
-            let mut first = true;
-            for loc in &self.locations {
-                if first {
-                    first = false;
-                } else {
-                    f.write(" | ");
-                }
-                f.write(loc.as_str());
+        f.write(" on");
+        let mut first = true;
+        for loc in &self.locations {
+            if first {
+                first = false;
+                f.write(" ");
+            } else {
+                f.write(" | ");
             }
+            f.write(loc.as_str());
         }
         f.endline();
     }
-- 
2.43.0


From 79ce4641e10cf2046e5aa9bd7feffdbc82392b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 11/18] fix: accept unsigned float exponents that start with 9

1e9 was rejected while 1e8 and 1e10 were accepted.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3721eb4..5581a77 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -109,7 +109,7 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first >= '9') {
+    if first != '-' && first != '+' && (first <= '0' || first > '9') {
         return false;
     }
 
-- 
2.43.0


From 784cc7c37f5bfd7aa6e2375344dbe4605e3cdb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 12/18] fix: reject float exponents that are only a sign

`1e+` was a token, so minifying accepted it.
---
 src/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 5581a77..d3d9c53 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -113,7 +113,8 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
 
-    value[1..].chars().all(|x| x.is_ascii_digit())
+    // A sign alone is not an exponent
+    (value.len() > 1 || first.is_ascii_digit()) && value[1..].chars().all(|x| x.is_ascii_digit())
 }
 
 fn check_float(value: &str, exponent: Option<usize>, real: Option<usize>) -> bool {
-- 
2.43.0


From 34189d5e1ec30fe79cd7a2d46341cfad3c7b6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 13/18] fix: count a CRLF at the end of a comment as one line
 break

It was counted twice, so every position after a comment was one line off in
files with CRLF line endings.
---
 src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d3d9c53..4f2670f 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -326,8 +326,12 @@ impl<'a> TokenStream<'a> {
                 }
                 //comment
                 '#' => {
-                    for (_, cur_char) in iter.by_ref() {
+                    while let Some((_, cur_char)) = iter.next() {
                         // TODO(tailhook) ensure SourceCharacter
+                        if cur_char == '\r' && iter.as_str().starts_with('\n') {
+                            // counted when we get to the line feed
+                            continue;
+                        }
                         if cur_char == '\r' || cur_char == '\n' {
                             self.position.column = 1;
                             self.position.line += 1;
-- 
2.43.0


From 5b98cae776ddcb3cfe3d1a4778fc40550b1ee700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 14/18] fix: accept interface extensions that only add
 interfaces

---
 src/schema/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 263bfa4..62cee67 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -326,11 +326,11 @@ where
         parser(fields),
     )
         .flat_map(|(position, name, interfaces, directives, fields)| {
-            if directives.is_empty() && fields.is_empty() {
+            if interfaces.is_empty() && directives.is_empty() && fields.is_empty() {
                 let mut e = Errors::empty(position);
                 e.add_error(Error::expected_static_message(
                     "Interface type extension should contain at least \
-                     one directive or field.",
+                     one interface, directive or field.",
                 ));
                 return Err(e);
             }
-- 
2.43.0


From 67fc6147ef2324ce76c5a3e175570d382dc4e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 15/18] fix: keep a number and a following spread apart when
 minifying

---
 src/query/minify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/query/minify.rs b/src/query/minify.rs
index c2d44a7..e57f0cd 100644
--- a/src/query/minify.rs
+++ b/src/query/minify.rs
@@ -11,6 +11,7 @@ pub fn minify_query(source: String) -> Result<String, MinifyError> {
     let mut bits: Vec<&str> = Vec::new();
     let mut stream = TokenStream::new(source.as_str());
     let mut prev_was_punctuator = false;
+    let mut prev_was_number = false;
 
     loop {
         match stream.uncons() {
@@ -18,12 +19,16 @@ pub fn minify_query(source: String) -> Result<String, MinifyError> {
                 let token: Token = x;
                 let is_non_punctuator = token.kind != Kind::Punctuator;
 
-                if prev_was_punctuator && is_non_punctuator {
+                // A dot directly after a number would be read as a part of it
+                if prev_was_punctuator && is_non_punctuator
+                    || prev_was_number && token.value == "..."
+                {
                     bits.push(" ");
                 }
 
                 bits.push(token.value);
                 prev_was_punctuator = is_non_punctuator;
+                prev_was_number = matches!(token.kind, Kind::IntValue | Kind::FloatValue);
             }
             Err(ref e) if e == &combine::easy::Error::end_of_input() => break,
             Err(e) => return Err(MinifyError(e.to_string())),
-- 
2.43.0


From 8f51e745bf9d91376a2b5700b84481ab2240ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 16/18] fix: let a string or a byte-order mark directly follow
 a number

---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 4f2670f..55d14e5 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -229,7 +229,9 @@ impl<'a> TokenStream<'a> {
                     match cur_char {
                         // just scan for now, will validate later on
                         ' ' | '\n' | '\r' | '\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@'
-                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' => break idx,
+                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' | '"' | '\u{feff}' => {
+                            break idx
+                        }
                         '.' => real = Some(idx),
                         'e' | 'E' => exponent = Some(idx),
                         _ => {}
-- 
2.43.0


From a74b73b7ec12b1832b39246e7198be313b5276dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 17/18] fix: print negative zero as a float literal

---
 src/query/format.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 1be5eef..40f078b 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -253,11 +253,11 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
             Value::Int(ref num) => f.write(&format!("{}", num.0)),
             Value::Float(val) => {
                 let text = format!("{}", val);
-                if text.contains('.') || text.parse::<i64>().is_ok() {
+                // an integer literal has neither a negative zero nor this range
+                if text.contains('.') || (text != "-0" && text.parse::<i64>().is_ok()) {
                     f.write(&text);
                 } else {
-                    // would be an integer literal that is out of range
-                    f.write(&format!("{:e}", val));
+                    f.write(&format!("{:?}", val));
                 }
             }
             Value::String(ref val) => f.write_quoted(val),
-- 
2.43.0


From 1b9a8f366e447eb15e6925a6f4513195a1fd44fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 18/18] fix: print integral floats beyond 2^53 as float
 literals

---
 src/query/format.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 40f078b..89cd578 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -253,8 +253,9 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
             Value::Int(ref num) => f.write(&format!("{}", num.0)),
             Value::Float(val) => {
                 let text = format!("{}", val);
-                // an integer literal has neither a negative zero nor this range
-                if text.contains('.') || (text != "-0" && text.parse::<i64>().is_ok()) {
+                // an integer literal has no negative zero, and from 2^53 on the shortest digits that
+                // denote this float need not be its exact value
+                if text.contains('.') || (text != "-0" && val.abs() <= 9007199254740992.0) {
                     f.write(&text);
                 } else {
                     f.write(&format!("{:?}", val));
-- 
2.43.0

