From fb6fcb31b934cb6be48971f9636214628b79b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 01/65] fix: only `<!--` starts an HTML comment, not every `<!`

---
 lexer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 52f99d4..15d5ab8 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -264,7 +264,7 @@ impl<'a> Lexer<'a> {
                     self.skip_single_line_comment();
                     self.first_on_line = true;
                 }
-                Ok('<') if self.reader.peek().ok() == Some(&'!') => {
+                Ok('<') if self.data[self.reader.position()..].starts_with("<!--") => {
                     if !self.state.html_comment_allowed {
                         let position = self.reader.position();
                         return Err(Error::syntax_error(
-- 
2.43.0


From 6e9a95c0fea48b76227da8f948a6cca687f4e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 02/65] fix: restore the lexer state after a failed
 read_with_state

---
 lexer/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 15d5ab8..fa3bdb6 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -560,10 +560,10 @@ impl ReReadWithState<Token> for Lexer<'_> {
         mut state: LexerState,
     ) -> std::result::Result<(usize, Token), Self::Error> {
         mem::swap(&mut state, &mut self.state);
-        let result = self.next()?;
+        let result = self.next();
         mem::swap(&mut self.state, &mut state);
 
-        Ok(result)
+        result
     }
 }
 
-- 
2.43.0


From b6f3012bfd1187d6c65fb0be083d2607fb27bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 03/65] fix: the token after a template middle or tail is not
 first on line

---
 lexer/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index fa3bdb6..4f20cec 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -398,6 +398,8 @@ impl<'a> Lexer<'a> {
             TokenValue::TemplateTail(value)
         };
 
+        self.first_on_line = false;
+
         let span = Span::new(span_start, self.reader.position());
         Ok(Token {
             span,
-- 
2.43.0


From 4ff23d4cb10acaed56d409f6d3e269cd9fb6f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 04/65] fix: keep escape sequences in template literal parts

---
 lexer/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 4f20cec..4ac190a 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -425,9 +425,7 @@ impl<'a> Lexer<'a> {
             }
 
             escape = c == '\\' && !escape;
-            if !escape {
-                result.push(c);
-            }
+            result.push(c);
         }
     }
 
-- 
2.43.0


From e0de3f46238e09baa9c9c61dc8ba94382795daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 05/65] fix: every line terminator ends a regular expression,
 also in a class

---
 lexer/src/regexp.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index 778e273..a82517e 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -18,18 +18,14 @@ impl Lexer<'_> {
             result.push(c);
 
             match c {
-                '\n' => {
-                    let span_end = self.reader.position();
-                    return Err(Error::syntax_error(
-                        "Unterminated regular expression literal".to_owned(),
-                        (span_start, span_end - 1),
-                    ));
+                c if c.is_ecma_line_terminator() => {
+                    return Err(self.unterminated_regexp(span_start, c));
                 }
                 '/' => break,
                 '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
                     result.push(self.reader.consume()?)
                 }
-                '[' => result.push_str(&self.read_regexp_group_body()?),
+                '[' => result.push_str(&self.read_regexp_group_body(span_start)?),
                 _ => {}
             }
         }
@@ -40,19 +36,32 @@ impl Lexer<'_> {
         Ok(TokenValue::Literal(Literal::Regexp(result)))
     }
 
-    fn read_regexp_group_body(&mut self) -> Result<String> {
+    fn read_regexp_group_body(&mut self, span_start: usize) -> Result<String> {
         let mut result = String::new();
         loop {
             let c = self.reader.consume()?;
             result.push(c);
 
             match c {
+                c if c.is_ecma_line_terminator() => {
+                    return Err(self.unterminated_regexp(span_start, c));
+                }
                 ']' => break,
-                '\\' => result.push(self.reader.consume()?),
+                '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
+                    result.push(self.reader.consume()?)
+                }
                 _ => {}
             }
         }
 
         Ok(result)
     }
+
+    fn unterminated_regexp(&self, span_start: usize, line_terminator: char) -> Error {
+        let span_end = self.reader.position() - line_terminator.len_utf8();
+        Error::syntax_error(
+            "Unterminated regular expression literal".to_owned(),
+            (span_start, span_end),
+        )
+    }
 }
-- 
2.43.0


From e5fa09e7efda8de5aefa9754c3aa2e8f274d76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 06/65] fix: reject misplaced numeric separators and digits or
 escapes right after a number

---
 lexer/src/number.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index c5dd841..510401f 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -11,7 +11,7 @@ impl<'a> Lexer<'a> {
             Ok('x' | 'X') if current == &'0' => self.read_hex_string()?,
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
-            Ok('0'..='9') if current == &'0' => {
+            Ok('0'..='9' | '_') if current == &'0' => {
                 let position = self.reader.position();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
@@ -25,7 +25,9 @@ impl<'a> Lexer<'a> {
             .reader
             .current()
             .ok()
-            .map_or(false, CodePoint::is_start_of_identifier)
+            .map_or(false, |c| {
+                c.is_start_of_identifier() || c.is_ascii_digit() || c == &'\\'
+            })
         {
             let position = self.reader.position();
             return Err(Error::syntax_error(
@@ -149,6 +151,14 @@ impl<'a> Lexer<'a> {
             ));
         }
 
+        if number_str.starts_with('_') {
+            let span_end = self.reader.position();
+            return Err(Error::syntax_error(
+                "Number cannot start with underscore".to_owned(),
+                (span_start, span_end),
+            ));
+        }
+
         Ok(number_str)
     }
 }
-- 
2.43.0


From 63ee3d6365bdac8dde8d1c0813ea7902e946e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 07/65] fix: decode escape sequences in string literals and
 encode them when generating code

---
 codegen/src/lib.rs                   | 12 ++++-
 lexer/src/string.rs                  | 75 ++++++++++++++++++++++++++--
 lexer/src/unicode_escape_sequence.rs | 26 ++++++----
 3 files changed, 98 insertions(+), 15 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 0da100c..ecebbea 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -207,7 +207,17 @@ impl<'a> CodeGenerator<'a> {
     #[inline]
     fn quote(&mut self, delimiter: char, string: &str) {
         self.char(delimiter);
-        self.string(string);
+        for c in string.chars() {
+            match c {
+                '\n' => self.data.push_str("\\n"),
+                '\r' => self.data.push_str("\\r"),
+                c if c == delimiter || c == '\\' => {
+                    self.data.push('\\');
+                    self.data.push(c);
+                }
+                c => self.data.push(c),
+            }
+        }
         self.char(delimiter);
     }
 
diff --git a/lexer/src/string.rs b/lexer/src/string.rs
index 7c92537..8c9459e 100644
--- a/lexer/src/string.rs
+++ b/lexer/src/string.rs
@@ -38,16 +38,80 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_escape_sequence(&mut self, result: &mut String) -> Result<()> {
+        let span_start = self.reader.position() - 1;
         let c = self.reader.consume()?;
-        result.push(c);
 
-        if c == '\r' && self.reader.current().ok() == Some(&'\n') {
-            result.push(self.reader.consume()?);
+        match c {
+            'n' => result.push('\n'),
+            't' => result.push('\t'),
+            'r' => result.push('\r'),
+            'b' => result.push('\u{0008}'),
+            'v' => result.push('\u{000B}'),
+            'f' => result.push('\u{000C}'),
+            'x' => {
+                let code = self.read_hex_digits(span_start, 2)?;
+                result.push(code_unit_to_char(code));
+            }
+            'u' => {
+                let code = self.read_unicode_code_point_or_unit(span_start)?;
+                let code = self.read_low_surrogate_of(code, span_start)?;
+                result.push(code_unit_to_char(code));
+            }
+            '0'..='7' => result.push(self.read_octal_escape(c)?),
+            '\r' if self.reader.current().ok() == Some(&'\n') => {
+                result.push(c);
+                result.push(self.reader.consume()?);
+            }
+            c => result.push(c),
         }
 
         Ok(())
     }
 
+    /// If `code` is a leading surrogate directly followed by an escaped trailing surrogate, reads
+    /// the latter and returns the code point they represent together, otherwise returns `code`.
+    fn read_low_surrogate_of(&mut self, code: u32, span_start: usize) -> Result<u32> {
+        if !(0xD800..0xDC00).contains(&code) {
+            return Ok(code);
+        }
+
+        let rest = &self.data[self.reader.position()..];
+        let low = rest
+            .strip_prefix("\\u")
+            .and_then(|rest| rest.get(..4))
+            .filter(|hex| hex.chars().all(|c| c.is_ascii_hexdigit()))
+            .and_then(|hex| u32::from_str_radix(hex, 16).ok())
+            .filter(|low| (0xDC00..0xE000).contains(low));
+
+        let Some(low) = low else {
+            return Ok(code);
+        };
+
+        self.reader.consume()?; // \
+        self.reader.consume()?; // u
+        self.read_hex_digits(span_start, 4)?;
+
+        Ok(0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00))
+    }
+
+    /// Reads the rest of `\0` or a legacy octal escape sequence starting with `first`.
+    fn read_octal_escape(&mut self, first: char) -> Result<char> {
+        let max_digits = if first <= '3' { 3 } else { 2 };
+        let mut code = first as u32 - '0' as u32;
+
+        for _ in 1..max_digits {
+            match self.reader.current() {
+                Ok(c @ '0'..='7') => {
+                    code = code * 8 + (*c as u32 - '0' as u32);
+                    self.reader.consume()?;
+                }
+                _ => break,
+            }
+        }
+
+        Ok(code_unit_to_char(code))
+    }
+
     fn validate_character(&self, char: char) -> Result<()> {
         if char == '\r' || char == '\n' {
             let char_pos = self.reader.position() - 1;
@@ -60,3 +124,8 @@ impl<'a> Lexer<'a> {
         Ok(())
     }
 }
+
+/// A lone surrogate has no representation in a `String`.
+fn code_unit_to_char(code: u32) -> char {
+    char::from_u32(code).unwrap_or(char::REPLACEMENT_CHARACTER)
+}
diff --git a/lexer/src/unicode_escape_sequence.rs b/lexer/src/unicode_escape_sequence.rs
index 1d630b0..40466bd 100644
--- a/lexer/src/unicode_escape_sequence.rs
+++ b/lexer/src/unicode_escape_sequence.rs
@@ -42,10 +42,7 @@ impl Lexer<'_> {
             ));
         }
 
-        let code_point = match self.reader.current()? {
-            '{' => self.read_code_point(span_start)?,
-            _ => self.read_4digit_hex(span_start)?,
-        };
+        let code_point = self.read_unicode_code_point_or_unit(span_start)?;
 
         let Ok(char) = char::try_from(code_point) else {
             let position = self.reader.position();
@@ -58,6 +55,14 @@ impl Lexer<'_> {
         Ok(char)
     }
 
+    /// Reads what follows `\u`, either `{` code point `}` or four hex digits.
+    pub(super) fn read_unicode_code_point_or_unit(&mut self, span_start: usize) -> Result<u32> {
+        match self.reader.current()? {
+            '{' => self.read_code_point(span_start),
+            _ => self.read_hex_digits(span_start, 4),
+        }
+    }
+
     fn read_code_point(&mut self, span_start: usize) -> Result<u32> {
         let open_bracket = self.reader.consume()?;
         debug_assert_eq!(open_bracket, '{');
@@ -84,14 +89,13 @@ impl Lexer<'_> {
         }
     }
 
-    fn read_4digit_hex(&mut self, span_start: usize) -> Result<u32> {
-        let mut hex = String::with_capacity(4);
-        hex.push(self.read_hex_char(span_start)?);
-        hex.push(self.read_hex_char(span_start)?);
-        hex.push(self.read_hex_char(span_start)?);
-        hex.push(self.read_hex_char(span_start)?);
+    pub(super) fn read_hex_digits(&mut self, span_start: usize, digits: usize) -> Result<u32> {
+        let mut hex = String::with_capacity(digits);
+        for _ in 0..digits {
+            hex.push(self.read_hex_char(span_start)?);
+        }
 
-        // This unwrap is safe because we know the string contains only 4 hex chars.
+        // This unwrap is safe because we know the string contains only a few hex chars.
         Ok(u32::from_str_radix(&hex, 16).unwrap())
     }
 
-- 
2.43.0


From 562079cb3ca00a00ef8b4be9ac1d4f88b4b53747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 08/65] fix: tokens after a non-ASCII character start at their
 byte offset

---
 common/src/io/char_reader.rs         |  9 +++++++++
 lexer/src/lib.rs                     | 10 +++++-----
 lexer/src/number.rs                  | 10 +++++-----
 lexer/src/regexp.rs                  |  4 ++--
 lexer/src/unicode_escape_sequence.rs |  4 ++--
 5 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/common/src/io/char_reader.rs b/common/src/io/char_reader.rs
index 8251a25..4f0fcd3 100644
--- a/common/src/io/char_reader.rs
+++ b/common/src/io/char_reader.rs
@@ -12,6 +12,15 @@ impl<I> PeekReader<char, I>
 where
     I: PeekRead<char, Error = Error>,
 {
+    /// Byte offset of the current character, or the end position if there is none.
+    pub fn current_start(&self) -> usize {
+        match &self.current {
+            // The end position of a character is its byte offset plus its UTF-16 length.
+            Ok((end, c)) => end - c.len_utf16() + self.offset,
+            Err(_) => self.position,
+        }
+    }
+
     /// Read a string until `check` callback returns false or the end of the stream is reached.
     pub fn read_while<F>(&mut self, check: F) -> Result<String, I::Error>
     where
diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 4ac190a..9d96f2d 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -118,7 +118,7 @@ impl<'a> Lexer<'a> {
 
         let current = self.reader.current()?;
 
-        let start = self.reader.position();
+        let start = self.reader.current_start();
         let value = match current {
             '/' if self.state.regex_allowed => self.read_regexp_literal(),
             // <op>=
@@ -264,9 +264,9 @@ impl<'a> Lexer<'a> {
                     self.skip_single_line_comment();
                     self.first_on_line = true;
                 }
-                Ok('<') if self.data[self.reader.position()..].starts_with("<!--") => {
+                Ok('<') if self.data[self.reader.current_start()..].starts_with("<!--") => {
                     if !self.state.html_comment_allowed {
-                        let position = self.reader.position();
+                        let position = self.reader.current_start();
                         return Err(Error::syntax_error(
                             "HTML comments are not allowed in this context".to_owned(),
                             (position, position + 2),
@@ -306,7 +306,7 @@ impl<'a> Lexer<'a> {
 
     /// Skips multi line comment, returns true if a new line was skipped.
     fn skip_multi_line_comment(&mut self) -> Result<()> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
         self.reader.consume()?;
         self.reader.consume()?;
 
@@ -380,7 +380,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_template_literal_middle_or_tail(&mut self) -> Result<Token> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
         let start = self.reader.consume()?;
 
         if start != '}' {
diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index 510401f..b15ed38 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -12,7 +12,7 @@ impl<'a> Lexer<'a> {
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
             Ok('0'..='9' | '_') if current == &'0' => {
-                let position = self.reader.position();
+                let position = self.reader.current_start();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
                     (position, position + 1),
@@ -40,7 +40,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_hex_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -53,7 +53,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_octal_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -67,7 +67,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_binary_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -81,7 +81,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_decimal_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let mut number_string = String::new();
 
diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index a82517e..42231fc 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -6,7 +6,7 @@ type Result<T> = std::result::Result<T, Error>;
 
 impl Lexer<'_> {
     pub(super) fn read_regexp_literal(&mut self) -> Result<TokenValue> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
         let mut result = String::new();
         let regexp_start = self.reader.consume()?;
         debug_assert_eq!(regexp_start, '/');
@@ -58,7 +58,7 @@ impl Lexer<'_> {
     }
 
     fn unterminated_regexp(&self, span_start: usize, line_terminator: char) -> Error {
-        let span_end = self.reader.position() - line_terminator.len_utf8();
+        let span_end = self.reader.position() - line_terminator.len_utf16();
         Error::syntax_error(
             "Unterminated regular expression literal".to_owned(),
             (span_start, span_end),
diff --git a/lexer/src/unicode_escape_sequence.rs b/lexer/src/unicode_escape_sequence.rs
index 40466bd..3ae8897 100644
--- a/lexer/src/unicode_escape_sequence.rs
+++ b/lexer/src/unicode_escape_sequence.rs
@@ -9,7 +9,7 @@ impl Lexer<'_> {
         &mut self,
         is_start: bool,
     ) -> Result<char> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
         let char = self.read_unicode_escape_sequence()?;
         let valid = if is_start {
             char.is_start_of_identifier()
@@ -29,7 +29,7 @@ impl Lexer<'_> {
     }
 
     fn read_unicode_escape_sequence(&mut self) -> Result<char> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let slash = self.reader.consume()?;
         debug_assert_eq!(slash, '\\');
-- 
2.43.0


From 353ebbd43c13b66b0c8d98611b6df979057f9cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 09/65] fix: allow the in operator wherever the grammar sets
 the In parameter

---
 parser/src/assignment_pattern.rs |  5 ++++-
 parser/src/expr.rs               |  8 ++++++--
 parser/src/lib.rs                |  4 +++-
 parser/src/literal.rs            | 11 ++++++++---
 parser/src/member_access.rs      |  6 ++----
 parser/src/stmt.rs               |  2 +-
 parser/src/variable.rs           |  9 +++------
 7 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index c1de817..3d44b13 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -188,7 +188,10 @@ where
         let ident = self.parse_identifier()?;
         let initializer = self
             .current_matches(&punct!("="))
-            .then_try(|| self.parse_initializer())?;
+            .then_try(|| {
+                self.with_context(self.context.with_in(true))
+                    .parse_initializer()
+            })?;
 
         let span = self.span_from(span_start);
         Ok(SingleNameAssignmentProp {
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 1ecd11c..a2e4c32 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -289,7 +289,9 @@ where
 
         if self.current_matches(&punct!("?")) {
             self.consume()?;
-            let consequent = self.parse_assignment_expr()?;
+            let consequent = self
+                .with_context(self.context.with_in(true))
+                .parse_assignment_expr()?;
 
             self.consume_assert(&punct!(":"))?;
 
@@ -565,7 +567,9 @@ where
         let span_start = self.position();
 
         self.consume_assert(&punct!("("))?;
-        let expr = self.parse_assignment_expr()?;
+        let expr = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let span = self.span_from(span_start);
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 5a9fd49..b646ce8 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -423,7 +423,9 @@ where
             }
             token_matches!(punct!("[")) => {
                 self.consume()?;
-                let expr = self.parse_assignment_expr()?;
+                let expr = self
+                    .with_context(self.context.with_in(true))
+                    .parse_assignment_expr()?;
                 self.consume_assert(&punct!("]"))?;
                 Ok(PropertyName::Computed(expr.into()))
             }
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 02d8625..e550b49 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -75,7 +75,8 @@ where
         parts: &mut Vec<TemplatePart>,
     ) -> Result<()> {
         loop {
-            parts.push(TemplatePart::Expr(Box::new(self.parse_expr()?)));
+            let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
+            parts.push(TemplatePart::Expr(Box::new(expr)));
             self.reader
                 .reread_with_state(LexerState::inside_template())?;
 
@@ -129,7 +130,9 @@ where
                 break;
             }
 
-            let element = self.parse_array_element()?;
+            let element = self
+                .with_context(self.context.with_in(true))
+                .parse_array_element()?;
             if element != ArrayElement::Elision {
                 self.consume_list_delimiter(&punct!("]"))?;
             }
@@ -174,7 +177,9 @@ where
                 break;
             }
 
-            let prop = self.parse_property_definition()?;
+            let prop = self
+                .with_context(self.context.with_in(true))
+                .parse_property_definition()?;
 
             // This is covered by the `CoverInitializedName` production. It is invalid syntax in an
             // object literal.
diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 98e13bd..635704f 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -137,9 +137,7 @@ where
                 Ok(MemberProperty::Ident(identifier))
             }
             token_matches!(ok: punct!("[")) => {
-                let member = self
-                    .with_context(self.context.with_in(true))
-                    .parse_computed_property()?;
+                let member = self.parse_computed_property()?;
                 Ok(MemberProperty::Expr(member.into()))
             }
             _ => unreachable!(),
@@ -148,7 +146,7 @@ where
 
     fn parse_computed_property(&mut self) -> Result<Expr> {
         self.consume_assert(&punct!("["))?;
-        let expr = self.parse_expr()?;
+        let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!("]"))?;
 
         Ok(expr)
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 03f6c9e..b03a095 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -300,7 +300,7 @@ where
 
         self.consume_assert(&keyword!("with"))?;
         self.consume_assert(&punct!("("))?;
-        let object = self.parse_expr()?;
+        let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let body = self.parse_stmt()?;
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index dd1e021..e5e3973 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -15,12 +15,9 @@ where
         let token = self.consume()?;
         let span_start = token.span.start;
 
-        let declarations = if kind == VariableKind::Var {
-            self.with_context(self.context.with_in(true))
-                .parse_variable_declarations()?
-        } else {
-            self.parse_variable_declarations()?
-        };
+        let declarations = self
+            .with_context(self.context.with_in(true))
+            .parse_variable_declarations()?;
         self.maybe_consume(&punct!(";"))?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From f2887a9dde978e087d14c30e24a46b5d6eca38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 10/65] fix: statements that end with a semicolon need one or a
 place to insert one

---
 parser/src/stmt.rs     | 10 +++++-----
 parser/src/variable.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index b03a095..70c1ead 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -188,7 +188,7 @@ where
         self.consume_assert(&keyword!("break"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtBreak { span, label }.into())
@@ -200,7 +200,7 @@ where
         self.consume_assert(&keyword!("continue"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtContinue { span, label }.into())
@@ -220,7 +220,7 @@ where
 
         let argument = (!self.stmt_ended())
             .then_try(|| self.with_context(self.context.with_in(true)).parse_expr())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtReturn {
@@ -249,7 +249,7 @@ where
         }
 
         let argument = self.with_context(self.context.with_in(true)).parse_expr()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtThrow {
@@ -264,7 +264,7 @@ where
         let span_start = self.position();
 
         self.consume_assert(&keyword!("debugger"))?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtDebugger { span }.into())
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index e5e3973..3075006 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -18,7 +18,7 @@ where
         let declarations = self
             .with_context(self.context.with_in(true))
             .parse_variable_declarations()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtVariable {
-- 
2.43.0


From f517115334e1b1de23e3d9eb48197b93c7cf7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 11/65] fix: yield without argument can be followed by a comma,
 a colon or in

---
 parser/src/expr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index a2e4c32..31c90f5 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -827,5 +827,8 @@ where
         self.stmt_ended()
             || self.current_matches(&punct!(")"))
             || self.current_matches(&punct!("]"))
+            || self.current_matches(&punct!(","))
+            || self.current_matches(&punct!(":"))
+            || self.current_matches(&keyword!("in"))
     }
 }
-- 
2.43.0


From 2cd01890a6781e9071e9666c76d3a839a5cc92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 12/65] fix: reserved words are valid property names in an
 optional chain

---
 parser/src/member_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 635704f..3257e00 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -122,7 +122,7 @@ where
             }
             token_matches!(ok: punct!("?.") | punct!(".")) => {
                 self.consume()?;
-                let identifier = self.parse_identifier()?;
+                let identifier = self.parse_identifier_name()?;
                 Ok(MemberProperty::Ident(identifier))
             }
             _ => unreachable!(),
-- 
2.43.0


From e6f932688a2b6af3f46a6d86fd9b03cd178a937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 13/65] fix: a module specifier that is not a string is an
 error and not a panic

---
 parser/src/module.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index aa4144f..84618e9 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -2,11 +2,11 @@ use crate::error::Result;
 use crate::{Error, Parser, ThenTry};
 use fajt_ast::{
     DeclExport, DeclImport, ExportDecl, ExportDefaultDecl, ExportDefaultExpr, ExportNamed,
-    ExportNamespace, Ident, LitString, NamedExport, NamedImport, Stmt, VariableKind,
+    ExportNamespace, Ident, LitString, Literal, NamedExport, NamedImport, Stmt, VariableKind,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::Token;
+use fajt_lexer::token::{Token, TokenValue};
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
@@ -201,12 +201,11 @@ where
 
     /// Parses the `ModuleSpecifier` production.
     fn parse_module_specifier(&mut self) -> Result<LitString> {
-        let module_name = self
-            .parse_literal()?
-            .unwrap_literal()
-            .literal
-            .unwrap_string();
-        Ok(module_name)
+        let token = self.consume()?;
+        match token.value {
+            TokenValue::Literal(Literal::String(module_name)) => Ok(module_name),
+            _ => Err(Error::unexpected_token(token)),
+        }
     }
 
     /// Parses the `NameSpaceImport` production.
-- 
2.43.0


From e0285e767889840ee4d9d886061e47a2a7fa099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 14/65] fix: an import specifier without alias must be an
 identifier

---
 parser/src/module.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 84618e9..31459e7 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -236,10 +236,17 @@ where
     /// Parses the `ImportSpecifier` production.
     fn parse_import_specifier(&mut self) -> Result<NamedImport> {
         let span_start = self.position();
+        let is_identifier = self.is_identifier();
         let name = self.parse_identifier_name()?;
         let alias = self
             .maybe_consume(&keyword!("as"))?
             .then_try(|| self.parse_identifier())?;
+
+        // Without an alias the name is also the local binding.
+        if alias.is_none() && !is_identifier {
+            return Err(Error::forbidden_identifier(name.name, name.span));
+        }
+
         let span = self.span_from(span_start);
         Ok(NamedImport { span, name, alias })
     }
-- 
2.43.0


From 949abbab862ef2440a549ade281088b97a1e8fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 15/65] fix: a statement can start with an import call or
 import.meta

---
 parser/src/stmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 70c1ead..879384e 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -76,7 +76,9 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            token_matches!(keyword!("import")) => {
+            token_matches!(keyword!("import"))
+                if !self.peek_matches(&punct!("(")) && !self.peek_matches(&punct!(".")) =>
+            {
                 if self.source_type == SourceType::Script {
                     return Err(Error::syntax_error(
                         "Cannot use `import` statement outside a module".to_owned(),
-- 
2.43.0


From b1f258f73885573014c56a264afcd32a79d60f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 16/65] fix: import and export declarations are only allowed at
 the top level of a module

---
 parser/src/lib.rs  |  2 +-
 parser/src/stmt.rs | 54 ++++++++++++++++++++++++++--------------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index b646ce8..78382ea 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -181,7 +181,7 @@ impl Parse for Stmt {
         I: PeekRead<Token, Error = fajt_lexer::error::Error>,
         I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
     {
-        parser.parse_declaration_or_statement()
+        parser.parse_module_item()
     }
 }
 
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 879384e..207e33a 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -24,12 +24,42 @@ where
                 break;
             }
 
-            stmts.push(self.parse_declaration_or_statement()?);
+            stmts.push(self.parse_module_item()?);
         }
 
         Ok(stmts)
     }
 
+    /// Parses the `ModuleItem` production, or the `StatementListItem` production of a script.
+    /// Import and export declarations are only allowed at this level.
+    pub(super) fn parse_module_item(&mut self) -> Result<Stmt> {
+        match self.current()? {
+            token_matches!(keyword!("import"))
+                if !self.peek_matches(&punct!("(")) && !self.peek_matches(&punct!(".")) =>
+            {
+                if self.source_type == SourceType::Script {
+                    return Err(Error::syntax_error(
+                        "Cannot use `import` statement outside a module".to_owned(),
+                        self.current()?.span.clone(),
+                    ));
+                }
+
+                self.parse_import_declaration()
+            }
+            token_matches!(keyword!("export")) => {
+                if self.source_type == SourceType::Script {
+                    return Err(Error::syntax_error(
+                        "Cannot use `export` statement outside a module".to_owned(),
+                        self.current()?.span.clone(),
+                    ));
+                }
+
+                self.parse_export_declaration()
+            }
+            _ => self.parse_declaration_or_statement(),
+        }
+    }
+
     pub(super) fn parse_declaration_or_statement(&mut self) -> Result<Stmt> {
         let decl = self.parse_declaration()?;
         if let Some(decl) = decl {
@@ -76,28 +106,6 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            token_matches!(keyword!("import"))
-                if !self.peek_matches(&punct!("(")) && !self.peek_matches(&punct!(".")) =>
-            {
-                if self.source_type == SourceType::Script {
-                    return Err(Error::syntax_error(
-                        "Cannot use `import` statement outside a module".to_owned(),
-                        self.current()?.span.clone(),
-                    ));
-                }
-
-                Some(self.parse_import_declaration()?)
-            }
-            token_matches!(keyword!("export")) => {
-                if self.source_type == SourceType::Script {
-                    return Err(Error::syntax_error(
-                        "Cannot use `export` statement outside a module".to_owned(),
-                        self.current()?.span.clone(),
-                    ));
-                }
-
-                Some(self.parse_export_declaration()?)
-            }
             token_matches!(keyword!("const")) => {
                 Some(self.parse_variable_stmt(VariableKind::Const)?)
             }
-- 
2.43.0


From 3c62b400b253ffe285657f7f7fdc0d6d9769dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 17/65] fix: a class exported as default can extend without a
 name

---
 parser/src/class.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index 7ba3f44..5e7c77e 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -31,7 +31,9 @@ where
 
     /// Parses optional class identifier, returns dummy if identifier is optional and missing.
     fn parse_optional_class_identifier(&mut self) -> Result<Ident> {
-        if self.context.is_default && self.current_matches(&punct!("{")) {
+        if self.context.is_default
+            && (self.current_matches(&punct!("{")) || self.current_matches(&keyword!("extends")))
+        {
             let current = self.current().unwrap();
             Ok(Ident::dummy(current.span.start))
         } else {
-- 
2.43.0


From 04d9ca031170c92cfdb7affbbdefe0cca153f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 18/65] fix: only the exported declaration itself may omit its
 name

---
 parser/src/class.rs    | 4 +++-
 parser/src/function.rs | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index 5e7c77e..6086f8f 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -17,7 +17,9 @@ where
         self.consume_assert(&keyword!("class"))?;
 
         let identifier = self.parse_optional_class_identifier()?;
-        let (super_class, body) = self.parse_class_tail()?;
+        let (super_class, body) = self
+            .with_context(self.context.with_default(false))
+            .parse_class_tail()?;
 
         let span = self.span_from(span_start);
         Ok(DeclClass {
diff --git a/parser/src/function.rs b/parser/src/function.rs
index 88d1d77..73f3a3e 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -166,6 +166,7 @@ where
 
         self.with_context(
             self.context
+                .with_default(false)
                 .with_yield(generator)
                 .with_await(false)
                 .with_in_method(false)
@@ -187,6 +188,7 @@ where
 
         self.with_context(
             self.context
+                .with_default(false)
                 .with_yield(generator)
                 .with_await(true)
                 .with_in_method(false)
-- 
2.43.0


From 62dfda458698f5dfd41e641605f36530ad3ab889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 19/65] fix: async only starts an async function together with
 function on the same line

---
 parser/src/expr.rs   |  2 +-
 parser/src/lib.rs    | 10 +++++++++-
 parser/src/module.rs |  4 ++--
 parser/src/stmt.rs   |  8 ++------
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 31c90f5..a2db8c5 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -766,7 +766,7 @@ where
             token_matches!(keyword!("class")) => self
                 .with_context(self.context.with_strict(true))
                 .parse_class_expr()?,
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async")) if self.is_async_function() => {
                 self.parse_async_function_expr()?
             }
             token_matches!(punct!("/")) => {
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 78382ea..bc9e548 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -28,7 +28,7 @@ use fajt_ast::{
 use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
 use fajt_lexer::error::ErrorKind as LexerErrorKind;
 use fajt_lexer::token::{KeywordContext, Token, TokenValue};
-use fajt_lexer::{punct, Lexer};
+use fajt_lexer::{keyword, punct, Lexer};
 use fajt_lexer::{token_matches, LexerState};
 
 /// Similar trait to bool.then, but handles closures returning `Result`.
@@ -353,6 +353,14 @@ where
         self.peek().map_or(false, |t| t.first_on_line)
     }
 
+    /// Returns `true` if current position is the start of an async function, the `async` and
+    /// `function` tokens must be on the same line.
+    fn is_async_function(&self) -> bool {
+        self.current_matches(&keyword!("async"))
+            && self.peek_matches(&keyword!("function"))
+            && !self.followed_by_new_line()
+    }
+
     /// Returns `true` if current token is followed by new line.
     fn first_on_line(&self) -> bool {
         self.current().map_or(false, |t| t.first_on_line)
diff --git a/parser/src/module.rs b/parser/src/module.rs
index 31459e7..46a05df 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -28,7 +28,7 @@ where
             | token_matches!(ok: keyword!("const"))
             | token_matches!(ok: keyword!("function"))
             | token_matches!(ok: keyword!("class")) => self.parse_declaration_export(span_start),
-            token_matches!(ok: keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(ok: keyword!("async")) if self.is_async_function() => {
                 self.parse_declaration_export(span_start)
             }
             token_matches!(ok: keyword!("default")) => self.parse_default_export(span_start),
@@ -42,7 +42,7 @@ where
             token_matches!(keyword!("class")) | token_matches!(keyword!("function")) => self
                 .with_context(self.context.with_default(true))
                 .parse_declaration_default_export(span_start),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => self
+            token_matches!(keyword!("async")) if self.is_async_function() => self
                 .with_context(self.context.with_default(true))
                 .parse_declaration_default_export(span_start),
             _ => {
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 207e33a..cdd121e 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -99,7 +99,7 @@ where
     pub(super) fn parse_declaration(&mut self) -> Result<Option<Stmt>> {
         Ok(match self.current()? {
             token_matches!(keyword!("function")) => Some(self.parse_function_declaration()?),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(keyword!("async")) if self.is_async_function() => {
                 Some(self.parse_async_function_declaration()?)
             }
             token_matches!(keyword!("class")) => Some(
@@ -130,11 +130,7 @@ where
             return Ok(false);
         }
 
-        if self.current_matches(&keyword!("async")) && self.peek_matches(&keyword!("function")) {
-            return Ok(self.followed_by_new_line());
-        }
-
-        Ok(true)
+        Ok(!self.is_async_function())
     }
 
     /// Parses the `BlockStatement` production.
-- 
2.43.0


From ca8b9065852ac4c0d571869378fa8930ae3508cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 20/65] fix: the right side of for-of is a single assignment
 expression

---
 parser/src/iteration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index 3c9ed3e..c3e2344 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -173,7 +173,9 @@ where
     ) -> Result<Stmt> {
         self.consume_assert(&keyword!("of"))?;
 
-        let right = self.with_context(self.context.with_in(true)).parse_expr()?;
+        let right = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
 
         self.consume_assert(&punct!(")"))?;
 
-- 
2.43.0


From 2050921257b5cd240ca203aaf9895611ad4dea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 21/65] fix: reject let and async of at the left side of for-of

---
 parser/src/iteration.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index c3e2344..5f87b1a 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -126,10 +126,21 @@ where
     /// Parses the `ForInOfStatement` production.
     /// Expects `for (` to already have been consumed.
     fn parse_for_in_of(&mut self, span_start: usize, asynchronous: bool) -> Result<Stmt> {
+        // The left side of a for-of can start with neither `let` nor, if it is not a `for await`,
+        // `async of`.
+        let starts_with_let = self.current_matches(&keyword!("let"));
+        let is_async_of = self.current_matches(&keyword!("async"))
+            && self.peek_matches(&keyword!("of"))
+            && !asynchronous;
         let declaration = self.parse_for_declaration()?;
 
         match self.current()? {
             token_matches!(keyword!("of")) => {
+                let is_expr = matches!(declaration, ForDeclaration::Expr(_));
+                if is_expr && (starts_with_let || is_async_of) {
+                    return Err(Error::unexpected_token(self.consume()?));
+                }
+
                 self.parse_for_of(span_start, declaration, asynchronous)
             }
             token_matches!(keyword!("in")) => {
-- 
2.43.0


From a1d92a08716a101dc3d0119420f168e04578ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 22/65] fix: a switch statement has at most one default clause

---
 parser/src/stmt.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index cdd121e..a161a81 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -404,7 +404,15 @@ where
                 break;
             }
 
-            cases.push(self.parse_case_clause()?);
+            let case = self.parse_case_clause()?;
+            if case.test.is_none() && cases.iter().any(|case: &SwitchCase| case.test.is_none()) {
+                return Err(Error::syntax_error(
+                    "More than one default clause in switch statement".to_owned(),
+                    case.span,
+                ));
+            }
+
+            cases.push(case);
         }
 
         self.consume_assert(&punct!("}"))?;
-- 
2.43.0


From af6109ecb9723e2c15ed921592ebc6ee6de24e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 23/65] fix: with statements are not allowed in strict mode

---
 parser/src/stmt.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index a161a81..63bc186 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -304,7 +304,14 @@ where
     fn parse_with_stmt(&mut self) -> Result<Stmt> {
         let span_start = self.position();
 
-        self.consume_assert(&keyword!("with"))?;
+        let with = self.consume_assert(&keyword!("with"))?;
+        if self.context.is_strict {
+            return Err(Error::syntax_error(
+                "`with` statements are not allowed in strict mode".to_owned(),
+                with.span,
+            ));
+        }
+
         self.consume_assert(&punct!("("))?;
         let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
-- 
2.43.0


From 5dd67223624ba37895c9ef9e4539625725401993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 24/65] fix: names bound by patterns count as duplicate method
 parameters

---
 parser/src/static_semantics/mod.rs | 35 +++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/parser/src/static_semantics/mod.rs b/parser/src/static_semantics/mod.rs
index 5002e41..7bca0ff 100644
--- a/parser/src/static_semantics/mod.rs
+++ b/parser/src/static_semantics/mod.rs
@@ -3,7 +3,7 @@ mod macros;
 
 use crate::error::Result;
 use crate::{Context, Error};
-use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, Spanned};
+use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, ObjectBindingProp, Spanned};
 
 impl_trait!(
     impl trait ExprSemantics for Expr {
@@ -91,13 +91,32 @@ impl_trait!(
                 BindingPattern::Ident(ident) => {
                     vec![ident.name.as_ref()]
                 }
-                BindingPattern::Array(_arr) => {
-                    // TODO
-                    vec![]
-                }
-                BindingPattern::Object(_obj) => {
-                    // TODO
-                    vec![]
+                BindingPattern::Array(array) => array
+                    .elements
+                    .iter()
+                    .flatten()
+                    .map(|element| &element.pattern)
+                    .chain(array.rest.as_deref())
+                    .flat_map(|pattern| pattern.get_bound_names())
+                    .collect(),
+                BindingPattern::Object(object) => {
+                    let mut names = Vec::new();
+                    for prop in &object.props {
+                        match prop {
+                            ObjectBindingProp::Single(single) => {
+                                names.push(single.ident.name.as_ref())
+                            }
+                            ObjectBindingProp::Named(named) => {
+                                names.append(&mut named.binding.pattern.get_bound_names())
+                            }
+                        }
+                    }
+
+                    if let Some(rest) = &object.rest {
+                        names.append(&mut rest.get_bound_names());
+                    }
+
+                    names
                 }
             }
         }
-- 
2.43.0


From 0350b886a367ede74275970421d6d39aea7e34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 25/65] fix: let and const declarations cannot bind let

---
 parser/src/iteration.rs |  4 ++--
 parser/src/variable.rs  | 32 +++++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index 5f87b1a..bbb3bc1 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -208,7 +208,7 @@ where
         let variable_kind = self.parse_optional_variable_kind()?;
 
         if let Some(kind) = variable_kind {
-            let binding = self.parse_binding_pattern()?;
+            let binding = self.parse_variable_binding(&kind)?;
             return Ok(ForDeclaration::Declaration(ForBinding {
                 span: self.span_from(span_start),
                 kind,
@@ -261,7 +261,7 @@ where
     ) -> Result<ForInit> {
         let declarations = self
             .with_context(self.context.with_in(false))
-            .parse_variable_declarations()?;
+            .parse_variable_declarations(&kind)?;
 
         let span = self.span_from(span_start);
         Ok(ForInit::Declaration(StmtVariable {
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index 3075006..f57c7ec 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -1,6 +1,7 @@
 use crate::error::{Error, Result};
+use crate::static_semantics::BindingPatternSemantics;
 use crate::{Parser, ThenTry};
-use fajt_ast::{BindingPattern, Stmt, StmtVariable, VariableDeclaration, VariableKind};
+use fajt_ast::{BindingPattern, Spanned, Stmt, StmtVariable, VariableDeclaration, VariableKind};
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::token::Token;
 use fajt_lexer::{punct, LexerState};
@@ -17,7 +18,7 @@ where
 
         let declarations = self
             .with_context(self.context.with_in(true))
-            .parse_variable_declarations()?;
+            .parse_variable_declarations(&kind)?;
         self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
@@ -29,12 +30,15 @@ where
         .into())
     }
 
-    pub(super) fn parse_variable_declarations(&mut self) -> Result<Vec<VariableDeclaration>> {
-        let mut declarations = vec![self.parse_variable_declaration()?];
+    pub(super) fn parse_variable_declarations(
+        &mut self,
+        kind: &VariableKind,
+    ) -> Result<Vec<VariableDeclaration>> {
+        let mut declarations = vec![self.parse_variable_declaration(kind)?];
 
         loop {
             if self.maybe_consume(&punct!(","))? {
-                declarations.push(self.parse_variable_declaration()?);
+                declarations.push(self.parse_variable_declaration(kind)?);
             } else {
                 break;
             }
@@ -49,10 +53,24 @@ where
             || self.peek_is_identifier()
     }
 
+    /// Parses the pattern of a variable declaration, a lexical declaration cannot bind `let`.
+    pub(super) fn parse_variable_binding(&mut self, kind: &VariableKind) -> Result<BindingPattern> {
+        let pattern = self.parse_binding_pattern()?;
+
+        if kind != &VariableKind::Var && pattern.get_bound_names().contains(&"let") {
+            return Err(Error::forbidden_identifier(
+                "let".to_owned(),
+                pattern.span().clone(),
+            ));
+        }
+
+        Ok(pattern)
+    }
+
     /// Parses the `VariableDeclaration` or `LexicalBinding` production.
-    fn parse_variable_declaration(&mut self) -> Result<VariableDeclaration> {
+    fn parse_variable_declaration(&mut self, kind: &VariableKind) -> Result<VariableDeclaration> {
         let span_start = self.position();
-        let pattern = self.parse_binding_pattern()?;
+        let pattern = self.parse_variable_binding(kind)?;
 
         if !matches!(pattern, BindingPattern::Ident(_)) && !self.current_matches(&punct!("=")) {
             let span = self.span_from(span_start);
-- 
2.43.0


From 94d1eb4b0562e386172825e5d94258bf74ca2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 26/65] fix: async as an identifier can start any expression

---
 parser/src/cover.rs |  30 ++++++----
 parser/src/expr.rs  | 142 ++++++++++++++++++++++++--------------------
 2 files changed, 95 insertions(+), 77 deletions(-)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index 8df052c..0c871d6 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -1,7 +1,7 @@
 use crate::error::ErrorKind::{InitializedNameNotAllowed, UnexpectedToken};
 use crate::error::{Error, Result};
 use crate::Parser;
-use fajt_ast::Expr;
+use fajt_ast::{Callee, Expr, ExprCall};
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
 use fajt_lexer::token::Token;
@@ -45,23 +45,31 @@ where
         }
     }
 
-    /// Parses and resolves the `CoverCallExpressionAndAsyncArrowHead` production.
+    /// Parses and resolves the `CoverCallExpressionAndAsyncArrowHead` production. The call may be
+    /// the start of any other expression, but only the call alone can be an async arrow head.
     pub(super) fn parse_cover_call_or_async_arrow_head(&mut self) -> Result<Expr> {
         let start_token = self.current()?.clone();
-        match self.parse_covered_call_expression() {
-            Ok(expr) if !self.current_matches(&punct!("=>")) => Ok(expr),
-            Ok(_) => {
+        match self.parse_conditional_or_assignment_expr() {
+            Ok(expr) if self.current_matches(&punct!("=>")) && is_async_call(&expr) => {
                 self.reader.rewind_to(&start_token)?;
                 self.parse_async_arrow_function_expr()
             }
-            error => error,
+            Err(error) if error.kind() == &InitializedNameNotAllowed => {
+                self.reader.rewind_to(&start_token)?;
+                self.parse_async_arrow_function_expr().map_err(|_| error)
+            }
+            result => result,
         }
     }
+}
 
-    /// Parses the `CallExpression` covered by `CoverCallExpressionAndAsyncArrowHead`.
-    fn parse_covered_call_expression(&mut self) -> Result<Expr> {
-        let span_start = self.position();
-        let async_ident = self.parse_identifier()?;
-        self.parse_call_expr(span_start, async_ident.into())
+/// Returns `true` if `expr` is a call with `async` as callee.
+fn is_async_call(expr: &Expr) -> bool {
+    match expr {
+        Expr::Call(ExprCall {
+            callee: Callee::Expr(callee),
+            ..
+        }) => matches!(callee.as_ref(), Expr::IdentRef(ident) if ident.name == "async"),
+        _ => false,
     }
 }
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index a2db8c5..e1ff45f 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -63,75 +63,80 @@ where
             _ if self.is_identifier() && self.peek_matches(&punct!("=>")) => {
                 self.parse_arrow_function_expr()
             }
-            _ => {
-                /// When parsing an expression, it may fail during object literal parsing because
-                /// of the `CoverInitializedName` production. When that happens, we must retry
-                /// parsing as assignment pattern instead.
-                ///
-                /// The assignment pattern is only valid if it turns out this expression is the
-                /// left side of an assignment, otherwise the error must be propagated.
-                enum ExprOrRecoveredPattern {
-                    Expr(Expr),
-                    Pattern(AssignmentPattern, Error),
+            _ => self.parse_conditional_or_assignment_expr(),
+        }
+    }
+
+    /// Parses the parts of `AssignmentExpression` that starts with a `ConditionalExpression`, which
+    /// includes the left side of an assignment and arrow functions with parentheses.
+    pub(super) fn parse_conditional_or_assignment_expr(&mut self) -> Result<Expr> {
+        let span_start = self.position();
+        /// When parsing an expression, it may fail during object literal parsing because
+        /// of the `CoverInitializedName` production. When that happens, we must retry
+        /// parsing as assignment pattern instead.
+        ///
+        /// The assignment pattern is only valid if it turns out this expression is the
+        /// left side of an assignment, otherwise the error must be propagated.
+        enum ExprOrRecoveredPattern {
+            Expr(Expr),
+            Pattern(AssignmentPattern, Error),
+        }
+
+        let start_token = self.current()?.clone();
+
+        let pattern_or_expr = match self.parse_conditional_expr_or_arrow_function() {
+            Ok(expr) => ExprOrRecoveredPattern::Expr(expr),
+            Err(error) => {
+                // We hit a literal that did not conform to a literal because of the
+                // `CoverInitializedName` production.
+                if matches!(error.kind(), ErrorKind::InitializedNameNotAllowed) {
+                    self.reader.rewind_to(&start_token)?;
+
+                    // We are in invalid state because of invalid syntax.
+                    // Propagate all the way to the top for good error message.
+                    if !self.current_matches(&punct!("{"))
+                        && !self.current_matches(&punct!("["))
+                    {
+                        return Err(error);
+                    }
+
+                    let pattern = self.parse_assignment_pattern()?;
+                    ExprOrRecoveredPattern::Pattern(pattern, error)
+                } else {
+                    return Err(error);
                 }
+            }
+        };
 
-                let start_token = self.current()?.clone();
-
-                let pattern_or_expr = match self.parse_conditional_expr_or_arrow_function() {
-                    Ok(expr) => ExprOrRecoveredPattern::Expr(expr),
-                    Err(error) => {
-                        // We hit a literal that did not conform to a literal because of the
-                        // `CoverInitializedName` production.
-                        if matches!(error.kind(), ErrorKind::InitializedNameNotAllowed) {
-                            self.reader.rewind_to(&start_token)?;
-
-                            // We are in invalid state because of invalid syntax.
-                            // Propagate all the way to the top for good error message.
-                            if !self.current_matches(&punct!("{"))
-                                && !self.current_matches(&punct!("["))
-                            {
-                                return Err(error);
-                            }
-
-                            let pattern = self.parse_assignment_pattern()?;
-                            ExprOrRecoveredPattern::Pattern(pattern, error)
-                        } else {
-                            return Err(error);
-                        }
+        let assignment_operator = self.parse_optional_assignment_operator();
+        match assignment_operator {
+            Some(AssignmentOperator::Assign) => {
+                let assignment_expr = match pattern_or_expr {
+                    ExprOrRecoveredPattern::Expr(expr) => {
+                        self.normalize_left_side_assignment(&start_token, expr)?
+                    }
+                    ExprOrRecoveredPattern::Pattern(pattern, _) => {
+                        PatternOrExpr::AssignmentPattern(pattern)
                     }
                 };
 
-                let assignment_operator = self.parse_optional_assignment_operator();
-                match assignment_operator {
-                    Some(AssignmentOperator::Assign) => {
-                        let assignment_expr = match pattern_or_expr {
-                            ExprOrRecoveredPattern::Expr(expr) => {
-                                self.normalize_left_side_assignment(&start_token, expr)?
-                            }
-                            ExprOrRecoveredPattern::Pattern(pattern, _) => {
-                                PatternOrExpr::AssignmentPattern(pattern)
-                            }
-                        };
-
-                        self.parse_assignment(
-                            span_start,
-                            assignment_expr,
-                            AssignmentOperator::Assign,
-                        )
-                    }
-                    Some(operator) => match pattern_or_expr {
-                        ExprOrRecoveredPattern::Expr(expr) => {
-                            expr.early_errors_left_hand_side_expr(&self.context)?;
-                            self.parse_assignment(span_start, PatternOrExpr::Expr(expr), operator)
-                        }
-                        ExprOrRecoveredPattern::Pattern(_, error) => Err(error),
-                    },
-                    None => match pattern_or_expr {
-                        ExprOrRecoveredPattern::Expr(expr) => Ok(expr),
-                        ExprOrRecoveredPattern::Pattern(_, error) => Err(error),
-                    },
-                }
+                self.parse_assignment(
+                    span_start,
+                    assignment_expr,
+                    AssignmentOperator::Assign,
+                )
             }
+            Some(operator) => match pattern_or_expr {
+                ExprOrRecoveredPattern::Expr(expr) => {
+                    expr.early_errors_left_hand_side_expr(&self.context)?;
+                    self.parse_assignment(span_start, PatternOrExpr::Expr(expr), operator)
+                }
+                ExprOrRecoveredPattern::Pattern(_, error) => Err(error),
+            },
+            None => match pattern_or_expr {
+                ExprOrRecoveredPattern::Expr(expr) => Ok(expr),
+                ExprOrRecoveredPattern::Pattern(_, error) => Err(error),
+            },
         }
     }
 
@@ -187,12 +192,17 @@ where
     /// 2. `async a => {}` // Async arrow function without parameter parentheses.
     /// 3. `async(a) => {}` // Async arrow function with parentheses.
     /// 4. `async(a)` // Function call where `async` is an identifier and not a keyword.
+    /// 5. `async + a` // Any other expression where `async` is an identifier.
     fn parse_assignment_expr_async(&mut self) -> Result<Expr> {
         match self.peek() {
             token_matches!(opt: punct!("=>")) => self.parse_arrow_function_expr(),
-            token_matches!(opt: punct!("(")) => self.parse_cover_call_or_async_arrow_head(),
-            _ if self.peek_is_identifier() => self.parse_async_arrow_function_expr(),
-            _ => self.parse_conditional_expr(),
+            token_matches!(opt: punct!("(")) if !self.followed_by_new_line() => {
+                self.parse_cover_call_or_async_arrow_head()
+            }
+            _ if self.peek_is_identifier() && !self.followed_by_new_line() => {
+                self.parse_async_arrow_function_expr()
+            }
+            _ => self.parse_conditional_or_assignment_expr(),
         }
     }
 
-- 
2.43.0


From 5f889554e66b89f1925003ee2f2ef27e19af15d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 27/65] fix: arrow function parameters can have a trailing
 comma

---
 lexer/src/lib.rs                 |  2 +-
 lexer/src/number.rs              | 11 +++--------
 parser/src/assignment_pattern.rs | 10 ++++------
 parser/src/cover.rs              |  8 ++++++++
 parser/src/expr.rs               | 10 ++--------
 5 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 9d96f2d..347675d 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -8,9 +8,9 @@ mod string;
 
 #[macro_use]
 pub mod token;
+mod number;
 mod regexp;
 mod unicode_escape_sequence;
-mod number;
 
 use crate::code_point::CodePoint;
 use crate::error::Error;
diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index b15ed38..fb3ae8a 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -21,14 +21,9 @@ impl<'a> Lexer<'a> {
             _ => self.read_decimal_string()?,
         };
 
-        if self
-            .reader
-            .current()
-            .ok()
-            .map_or(false, |c| {
-                c.is_start_of_identifier() || c.is_ascii_digit() || c == &'\\'
-            })
-        {
+        if self.reader.current().ok().map_or(false, |c| {
+            c.is_start_of_identifier() || c.is_ascii_digit() || c == &'\\'
+        }) {
             let position = self.reader.position();
             return Err(Error::syntax_error(
                 "Number cannot be followed by identifier without separation".to_owned(),
diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index 3d44b13..be85987 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -186,12 +186,10 @@ where
         let span_start = self.position();
 
         let ident = self.parse_identifier()?;
-        let initializer = self
-            .current_matches(&punct!("="))
-            .then_try(|| {
-                self.with_context(self.context.with_in(true))
-                    .parse_initializer()
-            })?;
+        let initializer = self.current_matches(&punct!("=")).then_try(|| {
+            self.with_context(self.context.with_in(true))
+                .parse_initializer()
+        })?;
 
         let span = self.span_from(span_start);
         Ok(SingleNameAssignmentProp {
diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index 0c871d6..df5632e 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -40,6 +40,14 @@ where
                         self.parse_arrow_function_expr()?,
                     ))
                 }
+                // Only parameters can have a trailing comma.
+                UnexpectedToken(punct!(")"), _) => {
+                    self.reader.rewind_to(&start_token)?;
+                    match self.parse_arrow_function_expr() {
+                        Ok(expr) => Err(Error::arrow_function_not_allowed(expr)),
+                        Err(_) => Err(error),
+                    }
+                }
                 _ => Err(error),
             },
         }
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index e1ff45f..b6a963d 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -94,9 +94,7 @@ where
 
                     // We are in invalid state because of invalid syntax.
                     // Propagate all the way to the top for good error message.
-                    if !self.current_matches(&punct!("{"))
-                        && !self.current_matches(&punct!("["))
-                    {
+                    if !self.current_matches(&punct!("{")) && !self.current_matches(&punct!("[")) {
                         return Err(error);
                     }
 
@@ -120,11 +118,7 @@ where
                     }
                 };
 
-                self.parse_assignment(
-                    span_start,
-                    assignment_expr,
-                    AssignmentOperator::Assign,
-                )
+                self.parse_assignment(span_start, assignment_expr, AssignmentOperator::Assign)
             }
             Some(operator) => match pattern_or_expr {
                 ExprOrRecoveredPattern::Expr(expr) => {
-- 
2.43.0


From 57a6806cf76a3cf91e5b28796833a4b558d8e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 28/65] fix: the body of an arrow function inherits strict mode

---
 parser/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index bc9e548..04fe537 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -85,7 +85,7 @@ pub struct Context {
     /// `In` production parameter.
     is_in: bool,
 
-    /// `Strict` production parameter.
+    /// `true` in strict mode code.
     is_strict: bool,
 
     /// `Default` production parameter.
@@ -128,9 +128,10 @@ impl Context {
     modifier!(with_super_call_allowed: super_call_allowed);
     modifier!(with_static_method_allowed: static_method_allowed);
 
-    /// Resets all production parameters.
+    /// Resets all production parameters, strict mode is not a production parameter.
     fn reset_parameters(&self) -> Self {
         Context {
+            is_strict: self.is_strict,
             in_method: self.in_method,
             super_call_allowed: self.super_call_allowed,
             static_method_allowed: self.static_method_allowed,
-- 
2.43.0


From c9dd29a7fa4a9a1deff14e510f0e9f9c188f9a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 29/65] fix: module code is strict and reserves await

---
 parser/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 04fe537..9731252 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -94,6 +94,9 @@ pub struct Context {
     /// `Return` production parameter.
     is_return: bool,
 
+    /// `true` in module code.
+    is_module: bool,
+
     /// `true` if we are inside a method and not a function.
     in_method: bool,
 
@@ -132,6 +135,7 @@ impl Context {
     fn reset_parameters(&self) -> Self {
         Context {
             is_strict: self.is_strict,
+            is_module: self.is_module,
             in_method: self.in_method,
             super_call_allowed: self.super_call_allowed,
             static_method_allowed: self.static_method_allowed,
@@ -141,7 +145,7 @@ impl Context {
 
     fn keyword_context(&self) -> KeywordContext {
         let mut keyword_context = KeywordContext::empty();
-        if self.is_await {
+        if self.is_await || self.is_module {
             keyword_context |= KeywordContext::AWAIT;
         }
 
@@ -171,7 +175,7 @@ impl Parse for Expr {
         I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
     {
         parser
-            .with_context(Context::default().with_in(true))
+            .with_context(parser.context.with_in(true))
             .parse_expr()
     }
 }
@@ -232,7 +236,12 @@ where
 {
     pub fn new(reader: &'a mut PeekReader<Token, I>, source_type: SourceType) -> Result<Self> {
         Ok(Parser {
-            context: Context::default(),
+            // Module code is always strict and reserves `await`.
+            context: Context {
+                is_strict: source_type == SourceType::Module,
+                is_module: source_type == SourceType::Module,
+                ..Context::default()
+            },
             reader,
             source_type,
         })
-- 
2.43.0


From bc2915f04d24aeffb84b418cf4bb2135209a603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 30/65] fix: await is reserved in the parameters of an async
 arrow function

---
 parser/src/function.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index 73f3a3e..93b41fd 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -35,7 +35,14 @@ where
         span_start: usize,
         asynchronous: bool,
     ) -> Result<Expr> {
-        let (binding_parameter, parameters) = self.parse_arrow_function_parameters()?;
+        let parameters_context = if asynchronous {
+            self.context.with_await(true)
+        } else {
+            self.context.clone()
+        };
+        let (binding_parameter, parameters) = self
+            .with_context(parameters_context)
+            .parse_arrow_function_parameters()?;
 
         let arrow = self.consume_assert(&punct!("=>"))?;
         if arrow.first_on_line {
-- 
2.43.0


From 8e306b24ee423ee85642ad37989839cf50d6de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 31/65] fix: reject yield and await expressions in function
 parameters

---
 parser/src/expr.rs     | 10 ++++++++--
 parser/src/function.rs | 10 ++++++++++
 parser/src/lib.rs      |  4 ++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index b6a963d..9d56c5a 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -263,7 +263,10 @@ where
     /// Parses the `YieldExpression` production.
     fn parse_yield_expr(&mut self) -> Result<Expr> {
         let span_start = self.position();
-        self.consume_assert(&keyword!("yield"))?;
+        let token = self.consume_assert(&keyword!("yield"))?;
+        if self.context.in_parameters {
+            return Err(Error::unexpected_token(token));
+        }
 
         if self.is_end() || self.expr_ended() {
             let span = self.span_from(span_start);
@@ -372,7 +375,10 @@ where
     /// Parses the `AwaitExpression` production.
     fn parse_await_expr(&mut self) -> Result<Expr> {
         let span_start = self.position();
-        self.consume_assert(&keyword!("await"))?;
+        let token = self.consume_assert(&keyword!("await"))?;
+        if self.context.in_parameters {
+            return Err(Error::unexpected_token(token));
+        }
 
         let argument = self.parse_unary_expr()?.into();
 
diff --git a/parser/src/function.rs b/parser/src/function.rs
index 93b41fd..058e7a4 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -240,6 +240,11 @@ where
 
     /// Parses the `FormalParameters` production.
     pub(super) fn parse_formal_parameters(&mut self) -> Result<FormalParameters> {
+        self.with_context(self.context.with_in_parameters(true))
+            .parse_formal_parameter_list()
+    }
+
+    fn parse_formal_parameter_list(&mut self) -> Result<FormalParameters> {
         let span_start = self.position();
 
         self.consume_assert(&punct!("("))?;
@@ -274,6 +279,11 @@ where
 
     /// Parses the `FunctionBody` or `AsyncFunctionBody` production.
     pub(super) fn parse_function_body(&mut self) -> Result<Body> {
+        self.with_context(self.context.with_in_parameters(false))
+            .parse_function_body_content()
+    }
+
+    fn parse_function_body_content(&mut self) -> Result<Body> {
         let span_start = self.position();
         self.consume_assert(&punct!("{"))?;
 
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 9731252..b59ae5e 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -97,6 +97,9 @@ pub struct Context {
     /// `true` in module code.
     is_module: bool,
 
+    /// `true` inside function parameters, where `yield` and `await` expressions are not allowed.
+    in_parameters: bool,
+
     /// `true` if we are inside a method and not a function.
     in_method: bool,
 
@@ -127,6 +130,7 @@ impl Context {
     modifier!(with_default: is_default);
     modifier!(with_return: is_return);
 
+    modifier!(with_in_parameters: in_parameters);
     modifier!(with_in_method: in_method);
     modifier!(with_super_call_allowed: super_call_allowed);
     modifier!(with_static_method_allowed: static_method_allowed);
-- 
2.43.0


From 485f209342bfe54b1a31fdaa1539192afa45a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 32/65] fix: async, get, set and static can be names of
 properties and methods

---
 parser/src/literal.rs | 13 +++++++++----
 parser/src/method.rs  |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index e550b49..df9e506 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -264,12 +264,17 @@ where
         }))
     }
 
+    /// Returns `true` if the current property is a method. The contextual keywords can also be the
+    /// name of a property.
     pub fn is_object_method_definition(&self) -> bool {
         match self.current() {
-            token_matches!(ok: punct!("*") | punct!("[")) => true,
-            token_matches!(ok: keyword!("static")) => true,
-            token_matches!(ok: keyword!("async")) if !self.peek_matches(&punct!(":")) => true,
-            token_matches!(ok: keyword!("get") | keyword!("set")) => true,
+            token_matches!(ok: punct!("*")) => true,
+            token_matches!(
+                ok: keyword!("async") | keyword!("get") | keyword!("set") | keyword!("static")
+            ) => !matches!(
+                self.peek().map(|token| &token.value),
+                Some(punct!(",") | punct!("}") | punct!("="))
+            ),
             _ => self.peek_matches(&punct!("(")),
         }
     }
diff --git a/parser/src/method.rs b/parser/src/method.rs
index cfce334..1b8dc51 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -27,7 +27,9 @@ where
             token_matches!(keyword!("set")) if !self.peek_matches(&punct!("(")) => {
                 self.parse_getter_or_setter(is_static, MethodKind::Set)
             }
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if !self.followed_by_new_line() && !self.peek_matches(&punct!("(")) =>
+            {
                 self.parse_async_method(is_static)
             }
             _ => {
-- 
2.43.0


From 9578e37ae60ccb0f5fa5cfef00416a56ecb1c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 33/65] fix: yield and await in a method depend on the method
 and not on the surrounding function

---
 parser/src/literal.rs |  6 +++---
 parser/src/method.rs  | 41 +++++++++++++++++++++++++++++++++++------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index df9e506..dc0ba0c 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -1,8 +1,8 @@
 use crate::error::Result;
 use crate::{Error, Parser};
 use fajt_ast::{
-    ArrayElement, Expr, ExprLiteral, LitArray, LitObject, LitTemplate, Literal, MethodKind,
-    NamedProperty, PropertyDefinition, PropertyName, TemplatePart,
+    ArrayElement, Expr, ExprLiteral, LitArray, LitObject, LitTemplate, Literal, NamedProperty,
+    PropertyDefinition, PropertyName, TemplatePart,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
@@ -243,7 +243,7 @@ where
         if self.current_matches(&punct!(":")) {
             self.parse_named_property_definition(span_start, name)
         } else {
-            self.parse_method(span_start, false, name, MethodKind::Method)
+            self.parse_plain_method(span_start, false, name)
                 .map(PropertyDefinition::Method)
         }
     }
diff --git a/parser/src/method.rs b/parser/src/method.rs
index 1b8dc51..d57c33c 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -35,7 +35,7 @@ where
             _ => {
                 let span_start = self.position();
                 let name = self.parse_property_name()?;
-                self.parse_method(span_start, is_static, name, MethodKind::Method)
+                self.parse_plain_method(span_start, is_static, name)
             }
         }
     }
@@ -59,7 +59,17 @@ where
         self.consume()?;
 
         let name = self.parse_property_name()?;
-        self.parse_method(span_start, is_static, name, kind)
+
+        // A setter keeps the generator flag of the function it is defined in.
+        let generator = kind == MethodKind::Set && self.context.is_yield;
+        let method = self
+            .with_context(self.context.with_yield(false).with_await(false))
+            .parse_method(span_start, is_static, name, kind)?;
+
+        Ok(MethodDefinition {
+            generator,
+            ..method
+        })
     }
 
     /// Parses the `AsyncMethod` and `AsyncGeneratorMethod` production.
@@ -73,16 +83,35 @@ where
             .parse_method(span_start, is_static, name, MethodKind::Method)
     }
 
-    pub(super) fn parse_method(
+    /// Parses a method that is neither a generator, async, a getter nor a setter.
+    pub(super) fn parse_plain_method(
+        &mut self,
+        span_start: usize,
+        is_static: bool,
+        name: PropertyName,
+    ) -> Result<MethodDefinition> {
+        // A plain method keeps the generator flag of the function it is defined in.
+        let generator = self.context.is_yield;
+        let method = self
+            .with_context(self.context.with_yield(false).with_await(false))
+            .parse_method(span_start, is_static, name, MethodKind::Method)?;
+
+        Ok(MethodDefinition {
+            generator,
+            ..method
+        })
+    }
+
+    /// Parses the parts of a method after its name, assumes the `yield` and `await` parameters of
+    /// the context are the ones of the method.
+    fn parse_method(
         &mut self,
         span_start: usize,
         is_static: bool,
         name: PropertyName,
         kind: MethodKind,
     ) -> Result<MethodDefinition> {
-        let parameters = self
-            .with_context(self.context.with_yield(false))
-            .parse_formal_parameters()?;
+        let parameters = self.parse_formal_parameters()?;
         let body = self.parse_function_body()?;
 
         match kind {
-- 
2.43.0


From 6a7e685b9890517da0a186e7fdc3a5c684da1de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 34/65] fix: super in a computed method name belongs to the
 surrounding function

---
 parser/src/class.rs   | 11 +++++------
 parser/src/expr.rs    |  1 -
 parser/src/literal.rs | 11 +++--------
 parser/src/method.rs  | 37 +++++++++++++++++++++++++++----------
 4 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index 6086f8f..1bac545 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -100,12 +100,11 @@ where
     fn parse_class_element(&mut self, has_super: bool) -> Result<ClassElement> {
         let super_call_allowed =
             has_super && self.current_matches_identifier_or_literal("constructor");
-        let context = self
-            .context
-            .with_in_method(true)
-            .with_static_method_allowed(true)
-            .with_super_call_allowed(super_call_allowed);
+        let context = self.context.with_static_method_allowed(true);
 
-        Ok(self.with_context(context).parse_method_definition()?.into())
+        Ok(self
+            .with_context(context)
+            .parse_method_definition(super_call_allowed)?
+            .into())
     }
 }
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 9d56c5a..5adaac6 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -54,7 +54,6 @@ where
 
     /// Parses the `AssignmentExpression` production.
     pub(super) fn parse_assignment_expr(&mut self) -> Result<Expr> {
-        let span_start = self.position();
         match self.current() {
             token_matches!(ok: keyword!("yield")) if self.context.is_yield => {
                 self.parse_yield_expr()
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index dc0ba0c..dfd0f6a 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -220,13 +220,8 @@ where
             token_matches!(punct!("[")) => self.parse_property_definition_with_computed_name(),
             _ if self.is_object_method_definition() => {
                 let method = self
-                    .with_context(
-                        self.context
-                            .with_in_method(true)
-                            .with_static_method_allowed(false)
-                            .with_super_call_allowed(false),
-                    )
-                    .parse_method_definition()?;
+                    .with_context(self.context.with_static_method_allowed(false))
+                    .parse_method_definition(false)?;
                 Ok(PropertyDefinition::Method(method))
             }
             _ => {
@@ -243,7 +238,7 @@ where
         if self.current_matches(&punct!(":")) {
             self.parse_named_property_definition(span_start, name)
         } else {
-            self.parse_plain_method(span_start, false, name)
+            self.parse_plain_method(span_start, false, name, false)
                 .map(PropertyDefinition::Method)
         }
     }
diff --git a/parser/src/method.rs b/parser/src/method.rs
index d57c33c..65fab22 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -1,6 +1,6 @@
 use crate::error::Result;
 use crate::static_semantics::FormalParametersSemantics;
-use crate::Parser;
+use crate::{Context, Parser};
 use fajt_ast::{MethodDefinition, MethodKind, PropertyName};
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
@@ -13,8 +13,12 @@ where
     I: PeekRead<Token, Error = fajt_lexer::error::Error>,
     I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
 {
-    /// Parses the `MethodDefinition` production.
-    pub(super) fn parse_method_definition(&mut self) -> Result<MethodDefinition> {
+    /// Parses the `MethodDefinition` production. A `super()` call is only allowed in a constructor,
+    /// which never is a special method, `super_call_allowed` is ignored for them.
+    pub(super) fn parse_method_definition(
+        &mut self,
+        super_call_allowed: bool,
+    ) -> Result<MethodDefinition> {
         let is_static = self.context.static_method_allowed
             && !self.peek_matches(&punct!("("))
             && self.maybe_consume(&keyword!("static"))?;
@@ -35,7 +39,7 @@ where
             _ => {
                 let span_start = self.position();
                 let name = self.parse_property_name()?;
-                self.parse_plain_method(span_start, is_static, name)
+                self.parse_plain_method(span_start, is_static, name, super_call_allowed)
             }
         }
     }
@@ -46,7 +50,7 @@ where
         self.consume_assert(&punct!("*"))?;
 
         let name = self.parse_property_name()?;
-        self.with_context(self.context.with_yield(true).with_await(false))
+        self.with_context(self.method_context(true, false))
             .parse_method(span_start, is_static, name, MethodKind::Method)
     }
 
@@ -63,7 +67,7 @@ where
         // A setter keeps the generator flag of the function it is defined in.
         let generator = kind == MethodKind::Set && self.context.is_yield;
         let method = self
-            .with_context(self.context.with_yield(false).with_await(false))
+            .with_context(self.method_context(false, false))
             .parse_method(span_start, is_static, name, kind)?;
 
         Ok(MethodDefinition {
@@ -79,7 +83,7 @@ where
 
         let generator = self.maybe_consume(&punct!("*"))?;
         let name = self.parse_property_name()?;
-        self.with_context(self.context.with_yield(generator).with_await(true))
+        self.with_context(self.method_context(generator, true))
             .parse_method(span_start, is_static, name, MethodKind::Method)
     }
 
@@ -89,11 +93,15 @@ where
         span_start: usize,
         is_static: bool,
         name: PropertyName,
+        super_call_allowed: bool,
     ) -> Result<MethodDefinition> {
         // A plain method keeps the generator flag of the function it is defined in.
         let generator = self.context.is_yield;
         let method = self
-            .with_context(self.context.with_yield(false).with_await(false))
+            .with_context(
+                self.method_context(false, false)
+                    .with_super_call_allowed(super_call_allowed),
+            )
             .parse_method(span_start, is_static, name, MethodKind::Method)?;
 
         Ok(MethodDefinition {
@@ -102,8 +110,17 @@ where
         })
     }
 
-    /// Parses the parts of a method after its name, assumes the `yield` and `await` parameters of
-    /// the context are the ones of the method.
+    /// Returns the context of the parameters and body of a method. The name of the method does not
+    /// belong to this context.
+    fn method_context(&self, generator: bool, asynchronous: bool) -> Context {
+        self.context
+            .with_yield(generator)
+            .with_await(asynchronous)
+            .with_in_method(true)
+            .with_super_call_allowed(false)
+    }
+
+    /// Parses the parts of a method after its name, assumes the context is the one of the method.
     fn parse_method(
         &mut self,
         span_start: usize,
-- 
2.43.0


From 5b3c18edc11bf8aa6eaa1322818bfbccd38717b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 35/65] fix: a directive with escape sequences is not a use
 strict directive

---
 parser/src/function.rs             | 24 +++++++++++++-----------
 parser/src/lib.rs                  | 14 +++++++++-----
 parser/src/method.rs               |  6 +++---
 parser/src/static_semantics/mod.rs | 22 +++++++---------------
 4 files changed, 32 insertions(+), 34 deletions(-)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index 058e7a4..778cef1 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -1,5 +1,5 @@
 use crate::error::Result;
-use crate::{DirectivePrologueSemantics, Error, Parser, ThenTry};
+use crate::{Error, Parser, ThenTry};
 use fajt_ast::{
     ArrowFunctionBody, BindingElement, Body, DeclFunction, Expr, ExprArrowFunction, ExprFunction,
     FormalParameters, Ident, Stmt,
@@ -84,7 +84,7 @@ where
     /// Parses the `ConciseBody` production.
     fn parse_concise_body(&mut self) -> Result<ArrowFunctionBody> {
         if self.current_matches(&punct!("{")) {
-            Ok(ArrowFunctionBody::Body(self.parse_function_body()?))
+            Ok(ArrowFunctionBody::Body(self.parse_function_body()?.0))
         } else {
             Ok(ArrowFunctionBody::Expr(
                 self.parse_assignment_expr()?.into(),
@@ -149,7 +149,7 @@ where
     fn parse_function_expr_content(&mut self, span_start: usize) -> Result<Expr> {
         let identifier = self.is_identifier().then_try(|| self.parse_identifier())?;
         let parameters = self.parse_formal_parameters()?;
-        let body = self.parse_function_body()?;
+        let (body, _) = self.parse_function_body()?;
 
         let span = self.span_from(span_start);
         Ok(ExprFunction {
@@ -212,7 +212,7 @@ where
         identifier: Ident,
     ) -> Result<Stmt> {
         let parameters = self.parse_formal_parameters()?;
-        let body = self.parse_function_body()?;
+        let (body, _) = self.parse_function_body()?;
 
         let span = self.span_from(span_start);
         Ok(DeclFunction {
@@ -277,29 +277,31 @@ where
         })
     }
 
-    /// Parses the `FunctionBody` or `AsyncFunctionBody` production.
-    pub(super) fn parse_function_body(&mut self) -> Result<Body> {
+    /// Parses the `FunctionBody` or `AsyncFunctionBody` production. The second item of the returned
+    /// tuple is `true` if the body contains the `use strict` directive.
+    pub(super) fn parse_function_body(&mut self) -> Result<(Body, bool)> {
         self.with_context(self.context.with_in_parameters(false))
             .parse_function_body_content()
     }
 
-    fn parse_function_body_content(&mut self) -> Result<Body> {
+    fn parse_function_body_content(&mut self) -> Result<(Body, bool)> {
         let span_start = self.position();
         self.consume_assert(&punct!("{"))?;
 
-        let directives = self.parse_directive_prologue()?;
-        let is_strict = self.context.is_strict || directives.as_slice().contains_strict();
+        let (directives, contains_strict) = self.parse_directive_prologue()?;
+        let is_strict = self.context.is_strict || contains_strict;
 
         let statements = self
             .with_context(self.context.with_strict(is_strict).with_return(true))
             .parse_function_body_stmt_list()?;
 
         let span = self.span_from(span_start);
-        Ok(Body {
+        let body = Body {
             span,
             directives,
             statements,
-        })
+        };
+        Ok((body, contains_strict))
     }
 
     fn parse_function_body_stmt_list(&mut self) -> Result<Vec<Stmt>> {
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index b59ae5e..18540fb 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -20,7 +20,6 @@ mod stmt;
 mod variable;
 
 use crate::error::{Error, Result};
-use crate::static_semantics::DirectivePrologueSemantics;
 use fajt_ast::{
     Expr, ExprLiteral, Ident, LitString, Literal, Program, PropertyName, SourceType, Span, Stmt,
     StmtExpr, StmtList,
@@ -202,8 +201,7 @@ impl Parse for Program {
     {
         let span_start = parser.position();
 
-        let directives = parser.parse_directive_prologue()?;
-        let strict_mode = directives.as_slice().contains_strict();
+        let (directives, strict_mode) = parser.parse_directive_prologue()?;
 
         let body = if strict_mode {
             parser
@@ -458,8 +456,11 @@ where
         }
     }
 
-    fn parse_directive_prologue(&mut self) -> Result<Vec<LitString>> {
+    /// Parses the directive prologue, the second item of the returned tuple is `true` if it
+    /// contains the `use strict` directive, which cannot be written with escape sequences.
+    fn parse_directive_prologue(&mut self) -> Result<(Vec<LitString>, bool)> {
         let mut directives = Vec::new();
+        let mut contains_strict = false;
 
         loop {
             if !self.current_matches_string_literal() {
@@ -479,6 +480,9 @@ where
             };
 
             if let Some(string) = string_literal {
+                let token_length = stmt_start_token.span.end - stmt_start_token.span.start;
+                contains_strict |=
+                    string.value == "use strict" && token_length == "'use strict'".len();
                 directives.push(string);
             } else {
                 self.reader.rewind_to(&stmt_start_token)?;
@@ -486,7 +490,7 @@ where
             }
         }
 
-        Ok(directives)
+        Ok((directives, contains_strict))
     }
 
     /// Consumes current token if current token is `,`.
diff --git a/parser/src/method.rs b/parser/src/method.rs
index 65fab22..ceef7bd 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -129,13 +129,13 @@ where
         kind: MethodKind,
     ) -> Result<MethodDefinition> {
         let parameters = self.parse_formal_parameters()?;
-        let body = self.parse_function_body()?;
+        let (body, contains_strict) = self.parse_function_body()?;
 
         match kind {
-            MethodKind::Method => parameters.early_errors_method(&body.directives)?,
+            MethodKind::Method => parameters.early_errors_method(contains_strict)?,
             MethodKind::Get => parameters.early_errors_getter()?,
             MethodKind::Set => {
-                parameters.early_errors_setter(&body.directives)?
+                parameters.early_errors_setter(contains_strict)?
                 // TODO validate if bound names of set list is in `LexicallyDeclaredNames` of body
             }
         }
diff --git a/parser/src/static_semantics/mod.rs b/parser/src/static_semantics/mod.rs
index 7bca0ff..9093671 100644
--- a/parser/src/static_semantics/mod.rs
+++ b/parser/src/static_semantics/mod.rs
@@ -3,7 +3,7 @@ mod macros;
 
 use crate::error::Result;
 use crate::{Context, Error};
-use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, ObjectBindingProp, Spanned};
+use fajt_ast::{BindingPattern, Expr, FormalParameters, ObjectBindingProp, Spanned};
 
 impl_trait!(
     impl trait ExprSemantics for Expr {
@@ -76,14 +76,6 @@ impl_trait!(
     }
 );
 
-impl_trait!(
-    impl trait DirectivePrologueSemantics for &[LitString] {
-        fn contains_strict(&self) -> bool {
-            self.iter().any(|s| s.value == "use strict")
-        }
-    }
-);
-
 impl_trait!(
     impl trait BindingPatternSemantics for BindingPattern {
         fn get_bound_names(&self) -> Vec<&str> {
@@ -168,8 +160,8 @@ impl_trait!(
             Ok(())
         }
 
-        fn early_errors_method(&self, body_directives: &[LitString]) -> Result<()> {
-            self.early_errors_forbidden_use_strict(body_directives)?;
+        fn early_errors_method(&self, contains_strict: bool) -> Result<()> {
+            self.early_errors_forbidden_use_strict(contains_strict)?;
 
             let mut bound_names = self.bound_names();
             bound_names.sort_unstable();
@@ -189,8 +181,8 @@ impl_trait!(
             Ok(())
         }
 
-        fn early_errors_setter(&self, body_directives: &[LitString]) -> Result<()> {
-            self.early_errors_forbidden_use_strict(body_directives)?;
+        fn early_errors_setter(&self, contains_strict: bool) -> Result<()> {
+            self.early_errors_forbidden_use_strict(contains_strict)?;
 
             if self.rest.is_some() {
                 return Err(Error::syntax_error(
@@ -209,8 +201,8 @@ impl_trait!(
             Ok(())
         }
 
-        fn early_errors_forbidden_use_strict(&self, body_directives: &[LitString]) -> Result<()> {
-            if !self.is_simple() && body_directives.contains_strict() {
+        fn early_errors_forbidden_use_strict(&self, contains_strict: bool) -> Result<()> {
+            if !self.is_simple() && contains_strict {
                 return Err(Error::syntax_error(
                     "Only name parameters allowed in method with \"use strict\"".to_owned(),
                     self.span.clone()
-- 
2.43.0


From 3d3aed2b91f6a0ce463a0e99e940ac24eeedf424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 36/65] fix: elements of an array assignment pattern are
 separated by commas

---
 parser/src/assignment_pattern.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index be85987..c7d7e27 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -60,6 +60,11 @@ where
                 }
                 _ => {
                     elements.push(Some(self.parse_assignment_element()?));
+
+                    if !self.current_matches(&punct!(",")) && !self.current_matches(&punct!("]")) {
+                        let token = self.consume()?;
+                        return Err(Error::expected_other_token(token, &punct!(",")));
+                    }
                 }
             }
         }
-- 
2.43.0


From 7c54ca0b4f13b01db95643cf941a7bd7035ff8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 37/65] fix: eval and arguments cannot be assigned through a
 shorthand property in strict mode

---
 parser/src/assignment_pattern.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index c7d7e27..35fe006 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -5,7 +5,7 @@ use crate::Parser;
 use crate::ThenTry;
 use fajt_ast::PatternOrExpr;
 use fajt_ast::{
-    ArrayAssignmentPattern, AssignmentElement, AssignmentPattern, AssignmentProp,
+    ArrayAssignmentPattern, AssignmentElement, AssignmentPattern, AssignmentProp, Expr,
     NamedAssignmentProp, ObjectAssignmentPattern, SingleNameAssignmentProp, Spanned,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
@@ -191,6 +191,8 @@ where
         let span_start = self.position();
 
         let ident = self.parse_identifier()?;
+        Expr::from(ident.clone()).early_errors_left_hand_side_expr(&self.context)?;
+
         let initializer = self.current_matches(&punct!("=")).then_try(|| {
             self.with_context(self.context.with_in(true))
                 .parse_initializer()
-- 
2.43.0


From 6b35eb2d1acf63b50de54aef103ed5a0cc953f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 38/65] fix: assignment targets can be members of an object or
 array literal

---
 parser/src/assignment_pattern.rs | 62 +++++++++++++++++++++++++-------
 parser/src/iteration.rs          | 20 ++++++-----
 2 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index 35fe006..586c90e 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -5,12 +5,12 @@ use crate::Parser;
 use crate::ThenTry;
 use fajt_ast::PatternOrExpr;
 use fajt_ast::{
-    ArrayAssignmentPattern, AssignmentElement, AssignmentPattern, AssignmentProp, Expr,
+    ArrayAssignmentPattern, AssignmentElement, AssignmentPattern, AssignmentProp, Expr, Literal,
     NamedAssignmentProp, ObjectAssignmentPattern, SingleNameAssignmentProp, Spanned,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::Token;
+use fajt_lexer::token::{Token, TokenValue};
 use fajt_lexer::token_matches;
 use fajt_lexer::LexerState;
 
@@ -100,21 +100,57 @@ where
     fn parse_destructuring_assignment_target(&mut self) -> Result<PatternOrExpr> {
         Ok(match self.current()? {
             token_matches!(punct!("{") | punct!("[")) => {
-                PatternOrExpr::AssignmentPattern(self.parse_assignment_pattern()?)
+                match self.parse_assignment_pattern_target()? {
+                    Some(pattern) => PatternOrExpr::AssignmentPattern(pattern),
+                    None => PatternOrExpr::Expr(self.parse_destructuring_assignment_expr()?),
+                }
             }
-            _ => {
-                let expr = self.parse_left_hand_side_expr()?;
+            _ => PatternOrExpr::Expr(self.parse_destructuring_assignment_expr()?),
+        })
+    }
 
-                if !expr.is_assignment_target_type_simple(&self.context)? {
-                    return Err(Error::syntax_error(
-                        "Invalid destructuring assignment target".to_owned(),
-                        expr.span().clone(),
-                    ));
-                }
+    fn parse_destructuring_assignment_expr(&mut self) -> Result<Expr> {
+        let expr = self.parse_left_hand_side_expr()?;
+
+        if !expr.is_assignment_target_type_simple(&self.context)? {
+            return Err(Error::syntax_error(
+                "Invalid destructuring assignment target".to_owned(),
+                expr.span().clone(),
+            ));
+        }
 
-                PatternOrExpr::Expr(expr)
+        Ok(expr)
+    }
+
+    /// Parses an assignment target that starts with `{` or `[`. Returns `None`, without moving the
+    /// current position, if it is not a pattern but the start of a member expression, for example
+    /// `[].a`.
+    pub(super) fn parse_assignment_pattern_target(&mut self) -> Result<Option<AssignmentPattern>> {
+        let start_token = self.current()?.clone();
+        let result = self.parse_assignment_pattern();
+        if result.is_ok() && !self.is_member_or_call_continuation() {
+            return result.map(Some);
+        }
+
+        // If there is no member expression either, the error of the pattern is the relevant one.
+        self.reader.rewind_to(&start_token)?;
+        let expr = self.parse_left_hand_side_expr();
+        let is_member = matches!(&expr, Ok(Expr::Member(_)));
+        match result {
+            Err(error) if !is_member => Err(error),
+            _ => {
+                self.reader.rewind_to(&start_token)?;
+                Ok(None)
             }
-        })
+        }
+    }
+
+    fn is_member_or_call_continuation(&self) -> bool {
+        matches!(
+            self.current().map(|token| &token.value),
+            Ok(punct!(".") | punct!("[") | punct!("(") | punct!("?."))
+                | Ok(TokenValue::TemplateHead(_) | TokenValue::Literal(Literal::Template(_)))
+        )
     }
 
     /// Parses the `ObjectAssignmentPattern` production.
diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index bbb3bc1..c36d870 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -218,18 +218,22 @@ where
 
         match self.current()? {
             token_matches!(punct!("[")) | token_matches!(punct!("{")) => {
-                let assignment_pattern = self.parse_assignment_pattern()?;
-                Ok(ForDeclaration::AssignmentPattern(assignment_pattern))
-            }
-            _ => {
-                let expr = self.parse_left_hand_side_expr()?;
-
-                expr.early_errors_left_hand_side_expr(&self.context)?;
-                Ok(ForDeclaration::Expr(Box::new(expr)))
+                match self.parse_assignment_pattern_target()? {
+                    Some(pattern) => Ok(ForDeclaration::AssignmentPattern(pattern)),
+                    None => self.parse_for_declaration_expr(),
+                }
             }
+            _ => self.parse_for_declaration_expr(),
         }
     }
 
+    fn parse_for_declaration_expr(&mut self) -> Result<ForDeclaration> {
+        let expr = self.parse_left_hand_side_expr()?;
+
+        expr.early_errors_left_hand_side_expr(&self.context)?;
+        Ok(ForDeclaration::Expr(Box::new(expr)))
+    }
+
     /// Parses the first `Expression` in `for (Expression; Expression; Expression;')`.
     /// Returns None if it does not exists or it failed to parse.
     fn parse_optional_for_init(&mut self) -> Result<Option<ForInit>> {
-- 
2.43.0


From 2b95d354b59d35461fb5b6d031f85edb45885f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 39/65] fix: super and import calls can be followed by calls,
 members and templates

---
 parser/src/expr.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 5adaac6..ec7e06c 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -473,13 +473,9 @@ where
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
                 self.parse_import_call_expr()
             }
-            _ => {
-                let span_start = self.position();
-                let expr = self.parse_new_or_member_expr()?;
-                let call_expr = self.parse_recursive_call_expression(span_start, expr)?;
-                Ok(call_expr)
-            }
+            _ => self.parse_new_or_member_expr(),
         }?;
+        let expr = self.parse_recursive_call_expression(span_start, expr)?;
 
         if self.current_matches(&punct!("?.")) {
             // The NewExpression production handles nested news and is not included in the
@@ -508,9 +504,7 @@ where
                     let left = MemberObject::Expr(Box::new(expr));
                     self.parse_member_expr_right_side(span_start, left)?
                 }
-                token_matches!(ok: TokenValue::Literal(Literal::Template(_))) => {
-                    self.parse_tagged_template(span_start, expr)?
-                }
+                Ok(token_matches!(@template)) => self.parse_tagged_template(span_start, expr)?,
                 _ => break,
             };
         }
-- 
2.43.0


From 0869677c7a8a233b0fc64d7c5ee278cea0e20534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 40/65] fix: only new with arguments can be the base of an
 optional chain

---
 ast/src/expr.rs    | 4 ++--
 parser/src/expr.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/src/expr.rs b/ast/src/expr.rs
index b5f80e4..cf10706 100644
--- a/ast/src/expr.rs
+++ b/ast/src/expr.rs
@@ -38,9 +38,9 @@ fn size_of_expr() {
 }
 
 impl Expr {
-    pub fn is_nested_new(&self) -> bool {
+    pub fn is_new_without_arguments(&self) -> bool {
         if let Expr::New(expr) = &self {
-            matches!(*expr.callee, Expr::New(_))
+            expr.arguments_span.is_none()
         } else {
             false
         }
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index ec7e06c..4f8ca8b 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -478,9 +478,9 @@ where
         let expr = self.parse_recursive_call_expression(span_start, expr)?;
 
         if self.current_matches(&punct!("?.")) {
-            // The NewExpression production handles nested news and is not included in the
+            // The NewExpression production handles new without arguments and is not included in the
             // OptionalExpression production as a base for the chain.
-            if expr.is_nested_new() {
+            if expr.is_new_without_arguments() {
                 return Err(Error::unexpected_token(self.consume()?));
             }
 
-- 
2.43.0


From 1dd59784262cbca32282e7382810390bf9a2ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 41/65] fix: the coalesce operator does not mix with logical
 and/or

---
 parser/src/binary_expr.rs | 79 ++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 21 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index ab3bfa2..543a0b2 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -16,7 +16,16 @@ where
 {
     /// Parses the `ShortCircuitExpression` production.
     pub(super) fn parse_short_circuit_expr(&mut self) -> Result<Expr> {
-        self.parse_logical_expr(Self::parse_logical_or_expr, |token| {
+        let span_start = self.position();
+        let expr = self.parse_logical_or_expr()?;
+
+        // The operands of the CoalesceExpression production are bitwise OR expressions, `??` can
+        // not be mixed with `||` or `&&` without parentheses.
+        if matches!(expr, Expr::Logical(_)) {
+            return Ok(expr);
+        }
+
+        self.parse_logical_expr_right_side(span_start, expr, Self::parse_bitwise_or_expr, |token| {
             if token_matches!(token, punct!("??")) {
                 Some(logical_op!("??"))
             } else {
@@ -159,15 +168,23 @@ where
     where
         F: Fn(&Token) -> Option<BinaryOperator>,
     {
-        self.parse_recursive_binary_expr(next, map_operator, |span, left, right, operator| {
-            ExprBinary {
-                span,
-                left: Box::new(left),
-                right: Box::new(right),
-                operator,
-            }
-            .into()
-        })
+        let span_start = self.position();
+        let left = next(self)?;
+        self.parse_recursive_binary_expr(
+            span_start,
+            left,
+            next,
+            map_operator,
+            |span, left, right, operator| {
+                ExprBinary {
+                    span,
+                    left: Box::new(left),
+                    right: Box::new(right),
+                    operator,
+                }
+                .into()
+            },
+        )
     }
 
     /// All logical expressions are parsed the same way, they are broken up into multiple productions
@@ -181,20 +198,41 @@ where
         next: fn(&mut Self) -> Result<Expr>,
         map_operator: fn(&Token) -> Option<LogicalOperator>,
     ) -> Result<Expr> {
-        self.parse_recursive_binary_expr(next, map_operator, |span, left, right, operator| {
-            ExprLogical {
-                span,
-                left: Box::new(left),
-                right: Box::new(right),
-                operator,
-            }
-            .into()
-        })
+        let span_start = self.position();
+        let left = next(self)?;
+        self.parse_logical_expr_right_side(span_start, left, next, map_operator)
+    }
+
+    /// Parses the operators and right sides of a logical expression when the left side is known.
+    fn parse_logical_expr_right_side(
+        &mut self,
+        span_start: usize,
+        left: Expr,
+        next: fn(&mut Self) -> Result<Expr>,
+        map_operator: fn(&Token) -> Option<LogicalOperator>,
+    ) -> Result<Expr> {
+        self.parse_recursive_binary_expr(
+            span_start,
+            left,
+            next,
+            map_operator,
+            |span, left, right, operator| {
+                ExprLogical {
+                    span,
+                    left: Box::new(left),
+                    right: Box::new(right),
+                    operator,
+                }
+                .into()
+            },
+        )
     }
 
     #[inline]
     fn parse_recursive_binary_expr<T, F>(
         &mut self,
+        span_start: usize,
+        left: Expr,
         next: fn(&mut Self) -> Result<Expr>,
         map_operator: F,
         create_expr: fn(span: Span, left: Expr, right: Expr, operator: T) -> Expr,
@@ -202,8 +240,7 @@ where
     where
         F: Fn(&Token) -> Option<T>,
     {
-        let span_start = self.position();
-        let mut expr = next(self)?;
+        let mut expr = left;
         loop {
             let operator = self.current().map(&map_operator);
 
-- 
2.43.0


From 20a568edf7eea3ff7312667226c6439a6e9f2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 42/65] fix: the left operand of ** is not an unary expression

---
 parser/src/binary_expr.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index 543a0b2..efaa791 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::Parser;
 use fajt_ast::binary_op;
 use fajt_ast::logical_op;
@@ -145,7 +145,7 @@ where
 
     /// Parses the `ExponentiationExpression` production.
     fn parse_exponentiation_expr(&mut self) -> Result<Expr> {
-        self.parse_binary_expr(Self::parse_unary_expr, |token| {
+        self.parse_binary_expr(Self::parse_exponentiation_operand, |token| {
             if token_matches!(token, punct!("**")) {
                 Some(binary_op!("**"))
             } else {
@@ -154,6 +154,17 @@ where
         })
     }
 
+    /// Parses an operand of `ExponentiationExpression`. The left operand of `**` can not be an
+    /// unary expression, `-a ** b` must be written with parentheses.
+    fn parse_exponentiation_operand(&mut self) -> Result<Expr> {
+        let expr = self.parse_unary_expr()?;
+        if matches!(expr, Expr::Unary(_) | Expr::Await(_)) && self.current_matches(&punct!("**")) {
+            return Err(Error::unexpected_token(self.consume()?));
+        }
+
+        Ok(expr)
+    }
+
     /// All binary expressions are parsed the same way, they are broken up into multiple productions
     /// for precedence. This is the common parse method for all of them.
     ///
-- 
2.43.0


From aca0911b380b451788ccb4ba8a97271dff57e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 43/65] fix: traverse the alternate of a conditional expression

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index f7b9383..b6743ac 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -290,7 +290,7 @@ generate_fold_and_visit! {
         ExprConditional: (enter: enter_conditional_expr, exit: exit_conditional_expr) {
             condition
             consequent
-            condition
+            alternate
         }
 
         ExprUpdate: (enter: enter_update_expr, exit: exit_update_expr) {
-- 
2.43.0


From 9d3c66c84853c586492e1430e27d2d12d1ac5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 44/65] fix: traverse the namespace of an import and its names
 once

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index b6743ac..24cb288 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -219,7 +219,7 @@ generate_fold_and_visit! {
 
         DeclImport: (enter: enter_import, exit: exit_import) {
             default_binding
-            named_imports
+            namespace_binding
             named_imports
             from
         }
-- 
2.43.0


From c95a1ea7efff7325653f8c824ab7c31984742ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 45/65] fix: traverse the names of an export in source order

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 24cb288..027862c 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -518,8 +518,8 @@ generate_fold_and_visit! {
         }
 
         NamedExport: (enter: enter_named_export, exit: exit_named_export) {
-            name
             alias_of
+            name
         }
 
         NamedImport: (enter: enter_named_import, exit: exit_named_import) {
-- 
2.43.0


From dd750bcfe65c83659273385920817232a0787f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 46/65] fix: traverse and print the declaration of for-in and
 for-of

---
 ast/src/traverse/mod.rs | 4 +++-
 codegen/src/lib.rs      | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 027862c..458b6f2 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -534,6 +534,8 @@ generate_fold_and_visit! {
             statements
         }
 
-        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) { }
+        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) {
+            binding
+        }
     }
 }
diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index ecebbea..07ed0e4 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -575,6 +575,7 @@ impl Visitor for CodeGenerator<'_> {
         self.parenthesize('(', false, |s| {
             node.left.traverse(s);
 
+            s.space();
             s.string("of");
             s.space();
 
@@ -586,6 +587,12 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_for_binding(&mut self, node: &mut ForBinding) -> bool {
+        self.string(&node.kind.to_string());
+        self.space();
+        true
+    }
+
     fn exit_for_init(&mut self, node: &mut ForInit) {
         if matches!(node, ForInit::Declaration(_)) {
             // Variable statements ends with semicolon, don't want that inside for syntax.
@@ -600,6 +607,7 @@ impl Visitor for CodeGenerator<'_> {
         self.parenthesize('(', false, |s| {
             node.left.traverse(s);
 
+            s.space();
             s.string("in");
             s.space();
 
-- 
2.43.0


From 65c2667c6a7c9b51deb7dd48e1f344c9b6983218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 47/65] fix: traverse and print assignment patterns

---
 ast/src/traverse/mod.rs | 46 ++++++++++++++++++++++++++++++++++-
 codegen/src/lib.rs      | 54 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 99 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 458b6f2..fee09a4 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -198,7 +198,13 @@ generate_fold_and_visit! {
         }
 
         AssignmentPattern: (enter: enter_assignment_pattern, exit: exit_assignment_pattern) {
-            // TODO
+            Array
+            Object
+        }
+
+        AssignmentProp: (enter: enter_assignment_prop, exit: exit_assignment_prop) {
+            Single
+            Named
         }
     }
 
@@ -534,6 +540,44 @@ generate_fold_and_visit! {
             statements
         }
 
+        ArrayAssignmentPattern: (
+            enter: enter_array_assignment_pattern,
+            exit: exit_array_assignment_pattern
+        ) {
+            elements
+            rest
+        }
+
+        AssignmentElement: (enter: enter_assignment_element, exit: exit_assignment_element) {
+            target
+            initializer
+        }
+
+        ObjectAssignmentPattern: (
+            enter: enter_object_assignment_pattern,
+            exit: exit_object_assignment_pattern
+        ) {
+            props
+            rest
+        }
+
+        SingleNameAssignmentProp: (
+            enter: enter_single_name_assignment_prop,
+            exit: exit_single_name_assignment_prop
+        ) {
+            ident
+            initializer
+        }
+
+        NamedAssignmentProp: (
+            enter: enter_named_assignment_prop,
+            exit: exit_named_assignment_prop
+        ) {
+            name
+            value
+            initializer
+        }
+
         ForBinding: (enter: enter_for_binding, exit: exit_for_binding) {
             binding
         }
diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 07ed0e4..32d5db3 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1127,6 +1127,60 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_array_assignment_pattern(&mut self, node: &mut ArrayAssignmentPattern) -> bool {
+        let spaced = !node.elements.is_empty() || node.rest.is_some();
+        self.parenthesize('[', spaced, |s| {
+            // The parser adds an empty element for every comma.
+            let mut elements = node.elements.iter_mut().peekable();
+            while let Some(element) = elements.next() {
+                if element.is_some() {
+                    element.traverse(s);
+                    continue;
+                }
+
+                s.char(',');
+                if elements.peek().is_some() || node.rest.is_some() {
+                    s.space();
+                }
+            }
+
+            if let Some(rest) = node.rest.as_mut() {
+                s.string("...");
+                rest.traverse(s);
+            }
+        });
+        false
+    }
+
+    fn enter_assignment_element(&mut self, node: &mut AssignmentElement) -> bool {
+        node.target.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_object_assignment_pattern(&mut self, node: &mut ObjectAssignmentPattern) -> bool {
+        let spaced = !node.props.is_empty() || node.rest.is_some();
+        self.parenthesize('{', spaced, |s| {
+            s.comma_separated_with_rest(&mut node.props, &mut node.rest);
+        });
+        false
+    }
+
+    fn enter_single_name_assignment_prop(&mut self, node: &mut SingleNameAssignmentProp) -> bool {
+        node.ident.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_named_assignment_prop(&mut self, node: &mut NamedAssignmentProp) -> bool {
+        node.name.traverse(self);
+        self.char(':');
+        self.space();
+        node.value.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
     fn enter_object_binding(&mut self, node: &mut ObjectBinding) -> bool {
         let spaced = !node.props.is_empty() || node.rest.is_some();
         self.parenthesize('{', spaced, |s| {
-- 
2.43.0


From ff50899f342259453bba2ad236e1a3e5ac85ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 48/65] fix: generated tokens are separated where they would
 merge

---
 codegen/src/lib.rs | 68 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 32d5db3..5d5f829 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -46,6 +46,8 @@ impl Default for GeneratorContext {
 struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
+    last_literal: Cell<usize>,
+    last_integer: Cell<usize>,
 }
 
 impl Index {
@@ -53,6 +55,8 @@ impl Index {
         Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
+            last_literal: Cell::new(0),
+            last_integer: Cell::new(0),
         }
     }
 
@@ -71,6 +75,24 @@ impl Index {
     fn set_block_start(&self, pos: usize) {
         self.last_block_start.replace(pos);
     }
+
+    /// End of the last number or regexp, they can't be directly followed by an identifier.
+    fn last_literal(&self) -> usize {
+        self.last_literal.get()
+    }
+
+    fn set_literal(&self, pos: usize) {
+        self.last_literal.replace(pos);
+    }
+
+    /// End of the last decimal integer, it can't be directly followed by a dot.
+    fn last_integer(&self) -> usize {
+        self.last_integer.get()
+    }
+
+    fn set_integer(&self, pos: usize) {
+        self.last_integer.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -389,18 +411,32 @@ impl CodeGenerator<'_> {
         self.data.push_str(&" ".repeat(self.ctx.indentation()));
     }
 
-    /// Check if a space must be added before adding str to avoid merging keywords or identifiers.
+    /// Check if a space must be added before adding str to avoid merging it with the previous token.
     fn must_add_space_before(&self, str: &str) -> bool {
-        let last_is_alphanumeric = self.last().map(char::is_alphanumeric).unwrap_or(false);
-        let first_is_alphanumeric = str
-            .chars()
-            .next()
-            .map(char::is_alphanumeric)
-            .unwrap_or(false);
-        last_is_alphanumeric && first_is_alphanumeric
+        let (last, first) = match (self.last(), str.chars().next()) {
+            (Some(last), Some(first)) => (last, first),
+            _ => return false,
+        };
+
+        match first {
+            // `+ +a`, `a - --b`, `a / /b/`.
+            '+' | '-' | '/' if last == first => true,
+            // `<!--` starts a comment.
+            '-' => str == "--" && self.data.ends_with("<!"),
+            // The dot would be part of the number in `1 .a`.
+            '.' => str == "." && self.index.last_integer() == self.pos(),
+            first if is_identifier_part(first) => {
+                is_identifier_part(last) || self.index.last_literal() == self.pos()
+            }
+            _ => false,
+        }
     }
 }
 
+fn is_identifier_part(c: char) -> bool {
+    c.is_alphanumeric() || c == '$' || c == '_' || !c.is_ascii()
+}
+
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
         if self.ctx.minified && self.remove_last(';') && matches!(self.last(), Some(')')) {
@@ -758,7 +794,7 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_member_property(&mut self, node: &mut MemberProperty) -> bool {
         match node {
             MemberProperty::Ident(i) => {
-                self.char('.');
+                self.string(".");
                 i.traverse(self)
             }
             MemberProperty::Expr(expr) => {
@@ -1238,7 +1274,10 @@ impl Visitor for CodeGenerator<'_> {
             Literal::Null => self.string("null"),
             Literal::Boolean(true) => self.string("true"),
             Literal::Boolean(false) => self.string("false"),
-            Literal::Regexp(str) => self.string(str),
+            Literal::Regexp(str) => {
+                self.string(str);
+                self.index.set_literal(self.pos());
+            }
             _ => return true,
         }
 
@@ -1276,10 +1315,10 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_template_part(&mut self, node: &mut TemplatePart) -> bool {
         match node {
             TemplatePart::String(str) => {
-                self.string(str);
+                self.data.push_str(str);
             }
             TemplatePart::Expr(expr) => {
-                self.string("${");
+                self.data.push_str("${");
                 expr.traverse(self);
                 self.char('}');
             }
@@ -1364,6 +1403,11 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_number_literal(&mut self, node: &mut LitNumber) -> bool {
         self.string(&node.raw);
+        self.index.set_literal(self.pos());
+
+        if node.raw.chars().all(|c| c.is_ascii_digit() || c == '_') {
+            self.index.set_integer(self.pos());
+        }
         false
     }
 
-- 
2.43.0


From bac077bf9d720ddaead4dc16d75a00eae2421f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 49/65] fix: keep a trailing elision of an array literal

---
 codegen/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 5d5f829..54f07b5 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1300,6 +1300,11 @@ impl Visitor for CodeGenerator<'_> {
         let spaced = !node.elements.is_empty();
         self.parenthesize('[', spaced, |s| {
             s.comma_separated(&mut node.elements);
+
+            // The last comma of an array is ignored, unless it follows an elision.
+            if matches!(node.elements.last(), Some(ArrayElement::Elision)) {
+                s.char(',');
+            }
         });
         false
     }
-- 
2.43.0


From 4e7341f4eebfef8fdb4e0330bc4fb9c9b7f4ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 50/65] fix: separate throw, do-while and export * from the
 next statement

---
 codegen/src/lib.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 54f07b5..b80f6eb 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -48,6 +48,7 @@ struct Index {
     last_block_start: Cell<usize>,
     last_literal: Cell<usize>,
     last_integer: Cell<usize>,
+    open_statement: Cell<Option<usize>>,
 }
 
 impl Index {
@@ -57,6 +58,7 @@ impl Index {
             last_block_start: Cell::new(0),
             last_literal: Cell::new(0),
             last_integer: Cell::new(0),
+            open_statement: Cell::new(None),
         }
     }
 
@@ -333,14 +335,36 @@ impl CodeGenerator<'_> {
         self.pos() - self.index.last_new_line.get()
     }
 
+    /// Adds a semicolon at the current position if anything but a '}' follows.
+    fn separating_semicolon(&mut self) {
+        self.index.open_statement.set(Some(self.pos()));
+    }
+
+    fn close_statement(&mut self, next: Option<char>) {
+        if matches!(next, None | Some('\n')) {
+            return;
+        }
+
+        if let Some(pos) = self.index.open_statement.take() {
+            if next != Some('}') {
+                self.data.insert(pos, ';');
+                if self.index.last_new_line() > pos {
+                    self.index.set_new_line(self.index.last_new_line() + 1);
+                }
+            }
+        }
+    }
+
     /// Add char to output.
     fn char(&mut self, ch: char) {
+        self.close_statement(Some(ch));
         self.indent();
         self.data.push(ch);
     }
 
     /// Add string to output.
     fn string(&mut self, str: &str) {
+        self.close_statement(str.chars().next());
         self.indent();
 
         // Make sure we separate keywords
@@ -509,6 +533,7 @@ impl Visitor for CodeGenerator<'_> {
         self.string("throw");
         self.space();
         node.argument.traverse(self);
+        self.separating_semicolon();
         false
     }
 
@@ -680,6 +705,7 @@ impl Visitor for CodeGenerator<'_> {
             node.test.traverse(s);
         });
 
+        self.separating_semicolon();
         false
     }
 
@@ -956,6 +982,7 @@ impl Visitor for CodeGenerator<'_> {
         self.space();
 
         node.from.traverse(self);
+        self.separating_semicolon();
         false
     }
 
-- 
2.43.0


From 4268b24a840d93050724b73a9a3ef7bd9f903613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 51/65] fix: no extra comma between an elision and the rest of
 an array binding

---
 codegen/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index b80f6eb..5b5b050 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1178,8 +1178,11 @@ impl Visitor for CodeGenerator<'_> {
             }
 
             if let Some(rest) = node.rest.as_mut() {
-                if !node.elements.is_empty() {
+                if matches!(node.elements.last(), Some(Some(_))) {
                     s.char(',');
+                }
+
+                if !node.elements.is_empty() {
                     s.space();
                 }
 
-- 
2.43.0


From fee6f17a1257200b80153eb8d7ee51befd2291c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 52/65] fix: getters and setters are never printed as
 generators

---
 codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 5b5b050..5346f81 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -894,7 +894,7 @@ impl Visitor for CodeGenerator<'_> {
             self.space();
         }
 
-        if node.generator {
+        if node.generator && node.kind == MethodKind::Method {
             self.char('*');
         }
 
-- 
2.43.0


From db164dcbc16772da8130b9f0954c780f3a85adda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 53/65] fix: keep the empty body of a statement in minified
 output

---
 codegen/src/lib.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 5346f81..7b4c41f 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -49,6 +49,7 @@ struct Index {
     last_literal: Cell<usize>,
     last_integer: Cell<usize>,
     open_statement: Cell<Option<usize>>,
+    last_empty_body: Cell<Option<usize>>,
 }
 
 impl Index {
@@ -59,6 +60,7 @@ impl Index {
             last_literal: Cell::new(0),
             last_integer: Cell::new(0),
             open_statement: Cell::new(None),
+            last_empty_body: Cell::new(None),
         }
     }
 
@@ -158,6 +160,15 @@ impl<'a> CodeGenerator<'a> {
         }
     }
 
+    /// A statement that is part of another statement.
+    fn stmt_body(&mut self, body: &mut Stmt) {
+        body.traverse(self);
+
+        if matches!(body, Stmt::Empty(_)) {
+            self.index.last_empty_body.set(Some(self.pos()));
+        }
+    }
+
     fn maybe_as_alias<T>(&mut self, alias: &mut Option<T>)
     where
         T: Traverse,
@@ -321,6 +332,11 @@ impl CodeGenerator<'_> {
         false
     }
 
+    /// Remove last semicolon in output, unless it is the body of a statement.
+    fn remove_last_semicolon(&mut self) -> bool {
+        self.index.last_empty_body.get() != Some(self.pos()) && self.remove_last(';')
+    }
+
     fn last(&self) -> Option<char> {
         self.data.chars().last()
     }
@@ -398,7 +414,7 @@ impl CodeGenerator<'_> {
 
         if self.ctx.minified {
             // No ';' is necessary before a '}'.
-            self.remove_last(';');
+            self.remove_last_semicolon();
         }
 
         self.char('}');
@@ -463,7 +479,7 @@ fn is_identifier_part(c: char) -> bool {
 
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
-        if self.ctx.minified && self.remove_last(';') && matches!(self.last(), Some(')')) {
+        if self.ctx.minified && self.remove_last_semicolon() && matches!(self.last(), Some(')')) {
             // Don't remove semi colon if that render the last char a ')' since that could
             // result in invalid code like `for(true)`, `if(true)`, ...
             self.char(';');
@@ -525,7 +541,7 @@ impl Visitor for CodeGenerator<'_> {
         node.label.traverse(self);
         self.char(':');
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
@@ -563,13 +579,13 @@ impl Visitor for CodeGenerator<'_> {
 
         self.new_line();
 
-        node.consequent.traverse(&mut self.with_indent());
+        self.with_indent().stmt_body(&mut node.consequent);
 
-        if node.alternate.is_some() {
+        if let Some(alternate) = node.alternate.as_mut() {
             self.string("else");
             self.new_line();
 
-            node.alternate.traverse(&mut self.with_indent());
+            self.with_indent().stmt_body(alternate);
         }
 
         false
@@ -620,7 +636,7 @@ impl Visitor for CodeGenerator<'_> {
         });
 
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
@@ -644,7 +660,7 @@ impl Visitor for CodeGenerator<'_> {
         });
 
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
@@ -676,7 +692,7 @@ impl Visitor for CodeGenerator<'_> {
         });
 
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
@@ -689,7 +705,7 @@ impl Visitor for CodeGenerator<'_> {
         });
 
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
 
         false
     }
@@ -1427,7 +1443,7 @@ impl Visitor for CodeGenerator<'_> {
         node.object.traverse(self);
         self.char(')');
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
-- 
2.43.0


From d7558fae1c6df9f6a1f31bece9187b7dc9f301cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 54/65] fix: an invalid span is a deserialisation error and not
 a panic

---
 ast/src/span.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ast/src/span.rs b/ast/src/span.rs
index 73968e3..1751f2b 100644
--- a/ast/src/span.rs
+++ b/ast/src/span.rs
@@ -56,17 +56,16 @@ impl<'de> Deserialize<'de> for Span {
             where
                 E: serde::de::Error,
             {
-                let mut parts = str.split(':');
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    Ok(Span {
-                        start: start.parse().unwrap(),
-                        end: end.parse().unwrap(),
+                let parse = || {
+                    let (start, end) = str.split_once(':')?;
+                    Some(Span {
+                        start: start.parse().ok()?,
+                        end: end.parse().ok()?,
                     })
-                } else {
-                    Err(serde::de::Error::custom(format!(
-                        "{str} is not a valid span."
-                    )))
-                }
+                };
+
+                parse()
+                    .ok_or_else(|| serde::de::Error::custom(format!("{str} is not a valid span.")))
             }
         }
 
-- 
2.43.0


From e3929bcd69ab3c866a9bfe6fa4de557fbabb49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 55/65] fix: errors are rendered at the line and column they
 start at

---
 parser/src/error/emitter.rs | 65 +++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 3e415e5..a509913 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -21,7 +21,10 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     pub fn emit_error(&mut self, error: &Error) -> std::io::Result<()> {
         let span = &error.span;
         let line_span = self.get_line_boundaries(span);
-        let col_number = span.start - line_span.start + 1;
+        let col_number = self.source[line_span.start..self.start_of(span)]
+            .chars()
+            .count()
+            + 1;
         let line_number = self.get_line_number(span);
 
         writeln!(self.out, "{}", error)?;
@@ -54,20 +57,26 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         let line_number_str = line_number.to_string();
         let padding = line_number_str.len() + 1;
 
-        let err_span = error.span.translate(-(line_span.start as isize));
-        let err_token_length = err_span.end - err_span.start;
+        let err_start = self.start_of(&error.span);
+        let err_end = self.end_of(&error.span).min(line_span.end);
 
         writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
 
-        let line = &self.source[line_span.start..line_span.end];
-        let tab_indents = &line[0..err_span.start].matches('\t').count();
         writeln!(
             self.out,
             "{:<pad$}| {}",
             line_number_str,
-            line.replace('\t', "    "),
+            expand_tabs(&self.source[line_span.start..line_span.end]),
             pad = padding
         )?;
+
+        let err_offset = expand_tabs(&self.source[line_span.start..err_start])
+            .chars()
+            .count();
+        let err_mark = self
+            .source
+            .get(err_start..err_end)
+            .map_or(0, |marked| expand_tabs(marked).chars().count());
         writeln!(
             self.out,
             "{:<pad$}| {:<err_offset$}{:^<err_mark$} {}",
@@ -76,25 +85,51 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             "^",
             label,
             pad = padding,
-            err_offset = err_span.start + tab_indents * 3,
-            err_mark = err_token_length
+            err_offset = err_offset,
+            err_mark = err_mark
         )?;
 
         Ok(())
     }
 
     fn get_line_number(&self, span: &Span) -> usize {
-        self.source[..span.end].matches('\n').count() + 1
+        self.source[..self.start_of(span)].matches('\n').count() + 1
+    }
+
+    /// Start position of `span`, moved to the start of the character it is in.
+    fn start_of(&self, span: &Span) -> usize {
+        let mut start = span.start.min(self.source.len());
+        while !self.source.is_char_boundary(start) {
+            start -= 1;
+        }
+        start
     }
 
+    /// End position of `span`, moved to the end of the character it is in.
+    fn end_of(&self, span: &Span) -> usize {
+        let mut end = span.end.min(self.source.len());
+        while !self.source.is_char_boundary(end) {
+            end += 1;
+        }
+        end
+    }
+
+    fn source_of(&self, span: &Span) -> &str {
+        self.source
+            .get(self.start_of(span)..self.end_of(span))
+            .unwrap_or_default()
+    }
+
+    /// Boundaries of the line `span` starts on.
     fn get_line_boundaries(&self, span: &Span) -> Span {
-        let start = self.source[..span.start]
+        let span_start = self.start_of(span);
+        let start = self.source[..span_start]
             .rfind('\n')
             .map(|pos| pos + 1)
             .unwrap_or(0);
-        let end = self.source[span.end..]
+        let end = self.source[span_start..]
             .find('\n')
-            .map(|pos| pos + span.end)
+            .map(|pos| pos + span_start)
             .unwrap_or(self.source.len());
 
         Span::new(start, end)
@@ -107,7 +142,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             }
             ErrorKind::UnexpectedToken(_, None) => "Unexpected token".to_string(),
             ErrorKind::UnexpectedToken(_, Some(expected)) => {
-                let token_value = &self.source[error.span.start..error.span.end];
+                let token_value = self.source_of(&error.span);
                 format!(
                     "Unexpected token, found `{token_value}`, expected `{}`",
                     expected_token_to_string(expected).unwrap_or_default(),
@@ -121,3 +156,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         }
     }
 }
+
+fn expand_tabs(line: &str) -> String {
+    line.replace('\t', "    ")
+}
-- 
2.43.0


From 0f91b0aa5c4925d94ce43f602401c49789cbcca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 56/65] fix: a surrogate pair can be written with code point
 escapes

---
 lexer/src/string.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lexer/src/string.rs b/lexer/src/string.rs
index 8c9459e..d545f2b 100644
--- a/lexer/src/string.rs
+++ b/lexer/src/string.rs
@@ -78,7 +78,10 @@ impl<'a> Lexer<'a> {
         let rest = &self.data[self.reader.position()..];
         let low = rest
             .strip_prefix("\\u")
-            .and_then(|rest| rest.get(..4))
+            .and_then(|rest| match rest.strip_prefix('{') {
+                Some(rest) => rest.split_once('}').map(|(hex, _)| hex),
+                None => rest.get(..4),
+            })
             .filter(|hex| hex.chars().all(|c| c.is_ascii_hexdigit()))
             .and_then(|hex| u32::from_str_radix(hex, 16).ok())
             .filter(|low| (0xDC00..0xE000).contains(low));
@@ -89,7 +92,7 @@ impl<'a> Lexer<'a> {
 
         self.reader.consume()?; // \
         self.reader.consume()?; // u
-        self.read_hex_digits(span_start, 4)?;
+        self.read_unicode_code_point_or_unit(span_start)?;
 
         Ok(0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00))
     }
-- 
2.43.0


From 4f0113b8f0708d64b33c5536a2287bc01bfc0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 57/65] fix: the error about a missing declaration covers the
 token that stands there

---
 parser/src/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 46a05df..43fd646 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -98,7 +98,7 @@ where
         if let Some(decl) = decl {
             Ok(decl)
         } else {
-            let span = self.span_from(self.position());
+            let span = self.current()?.span.clone();
             Err(Error::syntax_error("Expected statement".to_owned(), span))
         }
     }
-- 
2.43.0


From 7415a19bc0c3b6510fa1fffd06e7f2bc2b5440c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 58/65] fix: remove an import that is no longer used

---
 parser/src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 4f8ca8b..29df1d6 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -14,7 +14,7 @@ use fajt_ast::{
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::{Token, TokenValue};
+use fajt_lexer::token::Token;
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
-- 
2.43.0


From 5be6d0e09d958c71758f0c4d6339a1e99d9e1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 59/65] fix: the format option takes one of pretty and minified
 and not two values

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 57a349d..a180d3a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,7 +51,7 @@ fn get_arguments() -> Arguments {
                 .long("format")
                 .short('f')
                 .value_name("format")
-                .value_names(["pretty", "minified"]),
+                .value_parser(["pretty", "minified"]),
         )
         .arg(Arg::new("check").long("check").short('c').num_args(0))
         .get_matches();
-- 
2.43.0


From a580832caf870ee8441664d6fd33b72ca6cbef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 60/65] fix: a line break does not separate let from yield or
 await where these are reserved

---
 parser/src/variable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index f57c7ec..198be1b 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -4,7 +4,7 @@ use crate::{Parser, ThenTry};
 use fajt_ast::{BindingPattern, Spanned, Stmt, StmtVariable, VariableDeclaration, VariableKind};
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::token::Token;
-use fajt_lexer::{punct, LexerState};
+use fajt_lexer::{keyword, punct, LexerState};
 
 impl<I> Parser<'_, I>
 where
@@ -51,6 +51,10 @@ where
         self.peek_matches(&punct!("{"))
             || self.peek_matches(&punct!("["))
             || self.peek_is_identifier()
+            // The binding identifier production always includes `yield` and `await`, a line break
+            // in front of them does not end the statement even where they are reserved.
+            || self.peek_matches(&keyword!("yield"))
+            || self.peek_matches(&keyword!("await"))
     }
 
     /// Parses the pattern of a variable declaration, a lexical declaration cannot bind `let`.
-- 
2.43.0


From 8754039cc5f994da630acd602f6c0f2be86e1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 61/65] fix: consecutive --> comments do not grow the stack

---
 lexer/src/lib.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 347675d..792f62d 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -235,20 +235,6 @@ impl<'a> Lexer<'a> {
         }?;
         let end = self.reader.position();
 
-        // Support for legacy html end comment: `-->`
-        if self.first_on_line && value == punct!("--") && self.reader.current().ok() == Some(&'>') {
-            if !self.state.html_comment_allowed {
-                return Err(Error::syntax_error(
-                    "HTML comments are not allowed in this context".to_owned(),
-                    (start, start + 3),
-                ));
-            }
-
-            self.skip_rest_of_line();
-            self.first_on_line = true;
-            return self.read();
-        }
-
         let token = Token::new(value, self.first_on_line, (start, end));
         self.first_on_line = false;
 
@@ -276,6 +262,22 @@ impl<'a> Lexer<'a> {
                     self.skip_single_line_comment();
                     self.first_on_line = true;
                 }
+                // Support for legacy html end comment: `-->`
+                Ok('-')
+                    if self.first_on_line
+                        && self.data[self.reader.current_start()..].starts_with("-->") =>
+                {
+                    if !self.state.html_comment_allowed {
+                        let position = self.reader.current_start();
+                        return Err(Error::syntax_error(
+                            "HTML comments are not allowed in this context".to_owned(),
+                            (position, position + 3),
+                        ));
+                    }
+
+                    self.skip_rest_of_line();
+                    self.first_on_line = true;
+                }
                 Ok('/') if self.reader.peek().ok() == Some(&'*') => {
                     self.skip_multi_line_comment()?;
                 }
-- 
2.43.0


From 0161004f7db9a12b9d9295ee97f79f2e74cc4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 62/65] fix: errors after column 65535 can be rendered

---
 parser/src/error/emitter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index a509913..64703f5 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -79,14 +79,13 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             .map_or(0, |marked| expand_tabs(marked).chars().count());
         writeln!(
             self.out,
-            "{:<pad$}| {:<err_offset$}{:^<err_mark$} {}",
+            "{:<pad$}| {}{} {}",
             "",
-            "",
-            "^",
+            // The width argument of the formatter is limited to 16 bits.
+            " ".repeat(err_offset),
+            "^".repeat(err_mark.max(1)),
             label,
-            pad = padding,
-            err_offset = err_offset,
-            err_mark = err_mark
+            pad = padding
         )?;
 
         Ok(())
-- 
2.43.0


From 1b7a0108e702097c4e591e6fb8d4856fe292af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:40 +0000
Subject: [PATCH 63/65] fix: do not indent empty lines in generated code

An empty line before a nested function declaration consisted of the
indentation of its block.
---
 codegen/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 7b4c41f..48bf56f 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -438,7 +438,8 @@ impl CodeGenerator<'_> {
 
     fn new_line(&mut self) {
         if !self.ctx.minified {
-            self.char('\n');
+            // Not through `char`, an empty line is not indented.
+            self.data.push('\n');
             self.index.set_new_line(self.pos());
         }
     }
-- 
2.43.0


From 66d831edbc546cadd798fa13672a5dd310a8ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:43 +0000
Subject: [PATCH 64/65] fix: indent every block within a variable declaration
 by its nesting

Only a function which itself was the initializer was indented as one, the
lines of any other, as in `const a = [() => { b }]`, were aligned with the
name.
---
 codegen/src/lib.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 48bf56f..01a6bf3 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1161,7 +1161,9 @@ impl Visitor for CodeGenerator<'_> {
         let mut printer = self.with_align();
         let mut declarations = node.declarations.iter_mut().peekable();
         while let Some(decl) = declarations.next() {
-            decl.traverse(&mut printer);
+            // Only the declarations are aligned, not the blocks within them.
+            printer.indent();
+            decl.traverse(&mut printer.without_align());
 
             if declarations.peek().is_some() {
                 printer.char(',');
@@ -1288,15 +1290,7 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_variable_declaration(&mut self, node: &mut VariableDeclaration) -> bool {
         node.pattern.traverse(self);
-
-        if matches!(
-            node.initializer,
-            Some(Expr::ArrowFunction(_) | Expr::Function(_))
-        ) {
-            self.without_align().initializer(&mut node.initializer);
-        } else {
-            self.initializer(&mut node.initializer);
-        }
+        self.initializer(&mut node.initializer);
         false
     }
 
-- 
2.43.0


From 5aff0a347588a71c53b74b08669b6be7157390ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:46 +0000
Subject: [PATCH 65/65] fix: align declarations with the column of the first
 name

The column was counted in bytes, and from the last line break that was not
part of a literal.
---
 codegen/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 01a6bf3..18b3a71 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -295,7 +295,8 @@ impl CodeGenerator<'_> {
     }
 
     fn with_align(&mut self) -> CodeGenerator<'_> {
-        let align = self.col_pos();
+        let line_start = self.data.rfind('\n').map_or(0, |pos| pos + 1);
+        let align = self.data[line_start..].chars().count();
         CodeGenerator {
             data: self.data,
             skip_next_separation: self.skip_next_separation,
-- 
2.43.0

