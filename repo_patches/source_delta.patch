From 29fa4941099d896174f6a69a482fd5ffd1097a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:47 +0000
Subject: [PATCH 01/56] fix: treat the condition of a ternary as a condition
 (flip-flops, regexp literals)

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 34faa6e..6d4490d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2600,7 +2600,7 @@ impl Builder {
         let colon_l = self.loc(&colon_t);
 
         Box::new(Node::IfTernary(IfTernary {
-            cond,
+            cond: Self::check_condition(cond),
             if_true,
             if_false,
             question_l,
-- 
2.43.0


From 30dd17edbecfa9b44d3091172202896ee8857919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 02/56] fix: keep parentheses that are the whole body of
 begin..end

---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6d4490d..d141d36 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3139,7 +3139,12 @@ impl Builder {
         if let Some(body) = body {
             let body = *body;
             match body {
-                Node::Begin(Begin { statements, .. }) => {
+                Node::Begin(Begin {
+                    statements,
+                    begin_l: None,
+                    end_l: None,
+                    ..
+                }) => {
                     // Synthesized (begin) from compstmt "a; b".
                     Box::new(Node::KwBegin(KwBegin {
                         statements,
-- 
2.43.0


From 0c858afa23638b81b94360f72bbfcdd9a7ea742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:20 +0000
Subject: [PATCH 03/56] fix: keep the sign in front of signed prefixed integers
 (+0x1F)

---
 src/lexer/parse_numeric.rs | 8 ++++----
 src/token_buf.rs           | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 477cb3c..cfbd29d 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -67,7 +67,7 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
+                tok.insert(start, b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'b' || c == b'B' {
@@ -109,7 +109,7 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
+                tok.insert(start, b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'd' || c == b'D' {
@@ -151,7 +151,7 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
+                tok.insert(start, b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'_' {
@@ -304,7 +304,7 @@ impl Lexer {
             }
             let suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
             let mut tok = self.tokenbuf.take();
-            tok.prepend(b"0");
+            tok.insert(start, b"0");
             return Some(self.set_integer_literal(&mut tok, suffix));
         }
         if let Some(MaybeByte::Some(byte)) = nondigit {
diff --git a/src/token_buf.rs b/src/token_buf.rs
index b8f7159..1d125ff 100644
--- a/src/token_buf.rs
+++ b/src/token_buf.rs
@@ -26,9 +26,9 @@ impl TokenBuf {
         }
     }
 
-    pub(crate) fn prepend(&mut self, part: &[u8]) {
-        let mut tmp = part.to_vec();
-        tmp.extend(self.bytes.as_raw().iter());
+    pub(crate) fn insert(&mut self, idx: usize, part: &[u8]) {
+        let bytes = self.bytes.as_raw();
+        let tmp = [&bytes[..idx], part, &bytes[idx..]].concat();
         self.bytes.set_raw(tmp);
     }
 
-- 
2.43.0


From 376f80a581da02bed53846b692722d602ff88383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:45 +0000
Subject: [PATCH 04/56] fix: re-read characters pushed back at the end of input
 (1. and 1e lost their last character)

---
 src/lexer/parse_numeric.rs | 4 +++-
 src/source/buffer.rs       | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index cfbd29d..c7a5a5f 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -228,10 +228,12 @@ impl Lexer {
                     if seen_e {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
-                    nondigit = Some(c);
+                    let e = c;
+                    nondigit = Some(e);
                     c = self.nextc();
                     if c != b'-' && c != b'+' && !c.is_digit() {
                         self.buffer.pushback(c);
+                        c = e;
                         nondigit = None;
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 7cd46c5..a57cd93 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -333,6 +333,7 @@ pub(crate) trait Pushback<T> {
 
 impl Pushback<u8> for Buffer {
     fn pushback(&mut self, c: u8) {
+        self.eofp = false;
         self.pcur -= 1;
         if self.pcur > self.pbeg
             && self.byte_at(self.pcur) == b'\n'
-- 
2.43.0


From ea9d60d458b4397b1e9fa61e2a7bd3c8d4649858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:48 +0000
Subject: [PATCH 05/56] fix: report $- without a name instead of reading it as
 a character

---
 src/lexer/parse_gvar.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexer/parse_gvar.rs b/src/lexer/parse_gvar.rs
index bad12eb..3a05edb 100644
--- a/src/lexer/parse_gvar.rs
+++ b/src/lexer/parse_gvar.rs
@@ -54,8 +54,7 @@ impl Lexer {
                     if self.tokadd_mbchar(c).is_err() { return Self::END_OF_INPUT }
                 } else {
                     self.buffer.pushback(c);
-                    self.buffer.pushback(b'-');
-                    return Self::tCHAR;
+                    self.compile_error(DiagnosticMessage::InvalidGvarName { c: b'-' }, self.current_loc());
                 }
                 return Self::tGVAR;
             },
-- 
2.43.0


From a7f92c2ef089aa0f52b9a4ec57c6cfec91fd2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:16 +0000
Subject: [PATCH 06/56] fix: treat a carriage return in the middle of a line as
 a space

---
 src/lexer/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index eda131d..9b74f6a 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -225,6 +225,8 @@ impl Lexer {
                             self.current_loc(),
                         );
                     }
+                    space_seen = true;
+                    continue 'retrying;
                 }
 
                 Some(b' ') | Some(b'\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
-- 
2.43.0


From 49ab26ca1a7eb9a8ff112e20d3b0be5fb08f5b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:48 +0000
Subject: [PATCH 07/56] fix: do not warn about m &:sym (the end-of-line test
 was inverted)

---
 src/lexer/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 9b74f6a..d2b227b 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -596,7 +596,7 @@ impl Lexer {
                         if c != b':'
                             || {
                                 c = self.buffer.peekc_n(1);
-                                !c.is_eof()
+                                c.is_eof()
                             }
                             || !(c == b'\''
                                 || c == b'"'
-- 
2.43.0


From 51be8916b58c0aee703cf710d4c0fe5b74f58157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:49 +0000
Subject: [PATCH 08/56] fix: read a backslash before a non-ASCII character only
 once in non-interpolating literals

---
 src/lexer/parse_string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index ed83777..04b4a38 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -314,6 +314,7 @@ impl Lexer {
                         if !c.is_ascii() && (func & STR_FUNC_EXPAND) == 0 {
                             self.tokadd(b'\\');
                             self.tokadd(c);
+                            continue;
                         }
                         if (func & STR_FUNC_REGEXP) != 0 {
                             match c {
-- 
2.43.0


From 3c1ef60c31284311193190a229716d84e21bf44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:52 +0000
Subject: [PATCH 09/56] fix: write control and meta escapes of regexps with two
 hex digits

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 04b4a38..6cfdf32 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -325,7 +325,7 @@ impl Lexer {
                                     c = self.read_escape(0);
 
                                     let mut escbuf = [0_u8; 5];
-                                    write!(&mut escbuf[..], "\\x{:X}", c.expect("bug")).unwrap();
+                                    write!(&mut escbuf[..], "\\x{:02X}", c.expect("bug")).unwrap();
                                     for byte in escbuf.iter().take(4) {
                                         self.tokadd(MaybeByte::Some(*byte));
                                     }
-- 
2.43.0


From 650f50829c24f8fffb243bd72ab66818caecdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:56 +0000
Subject: [PATCH 10/56] fix: \8 and \9 are not octal escapes

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 6cfdf32..bddb65b 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -664,7 +664,7 @@ impl Lexer {
             Some(b'e') => MaybeByte::new(0x1b_u8),
 
             Some(b'0') | Some(b'1') | Some(b'2') | Some(b'3') | Some(b'4') | Some(b'5')
-            | Some(b'6') | Some(b'7') | Some(b'8') | Some(b'9') => {
+            | Some(b'6') | Some(b'7') => {
                 self.buffer.pushback(c);
                 let c = self.scan_oct(self.buffer.pcur, 3, &mut numlen);
                 self.buffer.pcur += numlen;
-- 
2.43.0


From f0a119dbb85224456f6f5895a52948426da43c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:59 +0000
Subject: [PATCH 11/56] fix: name the escape, not its code, when suggesting a
 character syntax

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index bddb65b..6ba9552 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -773,7 +773,7 @@ impl Lexer {
     pub(crate) fn warn_space_char(&mut self, c: u8, prefix: &'static str) {
         self.warn(
             DiagnosticMessage::InvalidCharacterSyntax {
-                suggestion: format!("{}\\{}", prefix, c),
+                suggestion: format!("{}\\{}", prefix, c as char),
             },
             self.current_loc(),
         )
-- 
2.43.0


From efd241811580c18e27236dc870cad2a46544b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:54 +0000
Subject: [PATCH 12/56] fix: do not add the indentation of a blank squiggly
 heredoc line to the next line

---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 92f2391..ada2144 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -382,6 +382,9 @@ impl Lexer {
                 self.buffer.heredoc_indent = self.buffer.heredoc_line_indent
             }
             self.buffer.heredoc_line_indent = -1;
+        } else {
+            // whitespace-only line has no indentation
+            self.buffer.heredoc_line_indent = 0;
         }
         true
     }
-- 
2.43.0


From 8db0dd917e3831cf520021b58cdaeaaf42f145d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 13/56] fix: dedent tabs of squiggly heredocs by the width
 being removed

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index d141d36..8a42605 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -541,7 +541,7 @@ impl Builder {
                 col += 1;
             } else if s[i] == b'\t' {
                 let n = Self::TAB_WIDTH * (col / Self::TAB_WIDTH + 1);
-                if n > Self::TAB_WIDTH {
+                if n > width {
                     break;
                 }
                 col = n;
-- 
2.43.0


From fd99dbec286117e7cf5af726c7a561fac0eda956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:02 +0000
Subject: [PATCH 14/56] fix: keep the spaces after an interpolation in squiggly
 heredocs

---
 src/builder.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 8a42605..55eb7ed 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -457,6 +457,9 @@ impl Builder {
             .expect("dedent_level must be positive");
 
         let dedent_heredoc_parts = |parts: Vec<Node>| -> Vec<Node> {
+            // text after an interpolation is not at the beginning of its line
+            let mut after_interpolation = false;
+
             parts
                 .into_iter()
                 .filter_map(|part| match part {
@@ -466,7 +469,12 @@ impl Builder {
                         end_l,
                         expression_l,
                     }) => {
-                        let value = Self::dedent_string(value, dedent_level);
+                        let value = if after_interpolation {
+                            value
+                        } else {
+                            Self::dedent_string(value, dedent_level)
+                        };
+                        after_interpolation = false;
                         if value.is_empty() {
                             None
                         } else {
@@ -483,7 +491,10 @@ impl Builder {
                     | Node::BackRef(_)
                     | Node::NthRef(_)
                     | Node::Ivar(_)
-                    | Node::Cvar(_) => Some(part),
+                    | Node::Cvar(_) => {
+                        after_interpolation = true;
+                        Some(part)
+                    }
                     other => {
                         unreachable!("unsupported heredoc child {}", other.str_type())
                     }
-- 
2.43.0


From a9b0dce98a981106e88506aad5313fc8015e6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:23 +0000
Subject: [PATCH 15/56] fix: exclude the carriage return and tabs from the
 heredoc terminator

---
 src/lexer/parse_heredoc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index ada2144..9e61ed0 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -282,7 +282,10 @@ impl Lexer {
     fn compute_heredoc_end(&self) -> HeredocEnd {
         let start = self.buffer.pbeg;
         let mut end_starts_at = start;
-        while self.buffer.byte_at(end_starts_at) == b' ' {
+        while matches!(
+            self.buffer.byte_at(end_starts_at).as_option(),
+            Some(b' ') | Some(b'\t')
+        ) {
             end_starts_at += 1;
         }
         let mut end = end_starts_at;
@@ -291,6 +294,9 @@ impl Lexer {
             if c.is_eof() || c == b'\n' {
                 break;
             }
+            if c == b'\r' && self.buffer.byte_at(end + 1) == b'\n' {
+                break;
+            }
             end += 1;
         }
         let value = self
-- 
2.43.0


From f8a2021dcf6f6d13d461c935fd5a56b9b49aa4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:26 +0000
Subject: [PATCH 16/56] fix: give the end of an unterminated heredoc a valid
 range

---
 src/lexer/parse_heredoc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 9e61ed0..77e3ac4 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -325,6 +325,7 @@ impl Lexer {
             self.current_loc(),
         );
         self.token_flush();
+        self.lval_start = None;
         self.strterm = None;
         self.lex_state.set(EXPR_END);
         Self::tSTRING_END
-- 
2.43.0


From 25bc2d069a5924fd15ca4398c3689a40e9badfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:01 +0000
Subject: [PATCH 17/56] fix: end heredoc contents where the text ends

---
 src/lexer/parse_heredoc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 77e3ac4..fc30b17 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -207,7 +207,7 @@ impl Lexer {
                         .expect("failed to get heredoc id for comparison"),
                     indent,
                 ) {
-                    self.lval_end = Some(self.buffer.pend - 1);
+                    self.lval_end = Some(self.buffer.pbeg);
                     heredoc_end = self.compute_heredoc_end();
                     break;
                 }
@@ -240,7 +240,7 @@ impl Lexer {
                         return self.here_document_restore(&here);
                     }
                 }
-                self.lval_end = Some(self.buffer.pcur + 1);
+                self.lval_end = Some(self.buffer.pcur);
                 if c != b'\n' {
                     if c == b'\\' {
                         self.buffer.heredoc_line_indent = -1
@@ -249,6 +249,7 @@ impl Lexer {
                 }
                 let cc = self.nextc();
                 self.tokadd(cc);
+                self.lval_end = Some(self.buffer.pcur);
                 if self.buffer.heredoc_indent > 0 {
                     self.buffer.goto_eol();
                     return self.heredoc_flush();
-- 
2.43.0


From 625716a810d087f6e4360f1f0eaf4f2040fc8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:56 +0000
Subject: [PATCH 18/56] fix: do not panic on a string that follows a squiggly
 heredoc dropped by error recovery

---
 src/builder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 55eb7ed..6a65b4a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -531,9 +531,8 @@ impl Builder {
                     expression_l,
                 }))
             }
-            _ => {
-                unreachable!("unsupported heredoc_dedent argument {}", node.str_type())
-            }
+            // the heredoc itself has been dropped by error recovery
+            other => Box::new(other),
         }
     }
 
-- 
2.43.0


From 096d193c73904e0bc09ac9fa15a43bb296bce029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:38 +0000
Subject: [PATCH 19/56] fix: start the range of ?\u{61} at the question mark

---
 src/lexer/parse_qmark.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_qmark.rs b/src/lexer/parse_qmark.rs
index 35bb1d6..106b9c7 100644
--- a/src/lexer/parse_qmark.rs
+++ b/src/lexer/parse_qmark.rs
@@ -70,6 +70,8 @@ impl Lexer {
             return self.parse_qmark_ternary(c);
         } else if c == b'\\' {
             if self.buffer.peek(b'u') {
+                // reading the escape moves ptok
+                self.lval_start = Some(self.buffer.ptok);
                 self.nextc();
                 self.tokadd_utf8(None, 0, 0);
             } else if !self.buffer.is_eol() && !self.char_at(self.buffer.pcur).is_ascii() {
-- 
2.43.0


From b112651430e921a9d5edd367f32ade8b155ffd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:26 +0000
Subject: [PATCH 20/56] fix: range of a heredoc body that follows another
 heredoc body

---
 src/lexer/parse_heredoc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index fc30b17..4f3e484 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -129,10 +129,15 @@ impl Lexer {
         let func = here.func;
         let indent = here.func & STR_FUNC_INDENT;
 
+        let line_before = self.buffer.lastline;
         let mut c = self.nextc();
         if c.is_eof() {
             return self.here_document_error(&here, eos, len);
         }
+        if self.buffer.lastline != line_before {
+            // the next line may be not adjacent (bodies of previous heredocs are skipped)
+            self.lval_start = Some(self.buffer.pbeg);
+        }
         let bol = self.buffer.was_bol();
         if !bol {
             /* not beginning of line, cannot be the terminator */
-- 
2.43.0


From dd5bfbb8dda4c6d0dc58829b730f2068e5cc6f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:32 +0000
Subject: [PATCH 21/56] fix: a definition inside a block is not a part of the
 block for numbered parameters and return

---
 src/builder.rs            | 4 ++--
 src/context.rs            | 4 ----
 src/max_numparam_stack.rs | 6 ++++++
 src/parser/parse.y        | 2 +-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6a65b4a..d783c58 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3842,7 +3842,7 @@ impl Builder {
     }
 
     pub(crate) fn check_assignment_to_numparam(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-        let assigning_to_numparam = self.context.is_in_dynamic_block()
+        let assigning_to_numparam = self.max_numparam_stack.is_in_block()
             && matches!(
                 name,
                 "_1" | "_2" | "_3" | "_4" | "_5" | "_6" | "_7" | "_8" | "_9"
@@ -4255,7 +4255,7 @@ impl Builder {
             [b'_', n]
                 if (b'1'..=b'9').contains(&n)
                     && !self.static_env.is_declared(name)
-                    && self.context.is_in_dynamic_block() =>
+                    && self.max_numparam_stack.is_in_block() =>
             {
                 if true {
                     /* definitely an implicit param */
diff --git a/src/context.rs b/src/context.rs
index 8458fc6..0e3743d 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -62,10 +62,6 @@ impl SharedContext {
         *self.value.borrow()
     }
 
-    pub(crate) fn is_in_dynamic_block(&self) -> bool {
-        self.in_block() || self.in_lambda()
-    }
-
     pub(crate) fn is_empty(&self) -> bool {
         self.value.borrow().is_empty()
     }
diff --git a/src/max_numparam_stack.rs b/src/max_numparam_stack.rs
index cd36938..f4f1ead 100644
--- a/src/max_numparam_stack.rs
+++ b/src/max_numparam_stack.rs
@@ -37,6 +37,12 @@ impl MaxNumparamStack {
         self.top() > 0
     }
 
+    /// Returns true if the innermost scope belongs to a block or a lambda
+    /// (and not to a method, class or module definition)
+    pub(crate) fn is_in_block(&self) -> bool {
+        matches!(self.stack.borrow().last(), Some(item) if !item.is_static)
+    }
+
     pub(crate) fn register(&self, numparam: i32) {
         self.set(std::cmp::max(self.top(), numparam))
     }
diff --git a/src/parser/parse.y b/src/parser/parse.y
index e889a9c..e98c579 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -3590,7 +3590,7 @@ use crate::Loc;
 
         k_return: kRETURN
                     {
-                        if self.context.in_class() && !self.context.in_def() && !(self.context.in_block() || self.context.in_lambda()) {
+                        if self.context.in_class() && !self.context.in_def() && !self.max_numparam_stack.is_in_block() {
                             return self.yyerror(@1, DiagnosticMessage::InvalidReturnInClassOrModuleBody {});
                         }
                         $$ = $1;
-- 
2.43.0


From adc63754df1ebb91f1cb80c0dfc11c7cc451505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:56 +0000
Subject: [PATCH 22/56] fix: exclusive range in the receiver of a singleton
 method definition

---
 src/parser/parse.y | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/parse.y b/src/parser/parse.y
index e98c579..f76e017 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -6647,7 +6647,13 @@ f_opt_paren_args: f_paren_args
                         self.value_expr(&var_ref)?;
                         $$ = Value::Node(var_ref);
                     }
-                | tLPAREN2 { self.yylexer.lex_state.set(EXPR_BEG); $<None>$ = Value::None; } expr rparen
+                | tLPAREN2
+                    {
+                        self.yylexer.lex_state.set(EXPR_BEG);
+                        self.context.set_in_argdef(false);
+                        $<None>$ = Value::None;
+                    }
+                  expr rparen
                     {
                         let expr = $<BoxedNode>3;
 
-- 
2.43.0


From 5700af60ad6adec349ac5920c24b7d18d7747374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:43 +0000
Subject: [PATCH 23/56] fix: numbered parameter that is also used in an outer
 or inner block

---
 src/builder.rs            | 71 ++++++++++++++++++---------------------
 src/max_numparam_stack.rs | 17 +++++++++-
 2 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index d783c58..16dba01 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4251,52 +4251,45 @@ impl Builder {
     }
 
     fn try_declare_numparam(&self, name: &str, loc: &Loc) -> bool {
-        match name.as_bytes()[..] {
-            [b'_', n]
-                if (b'1'..=b'9').contains(&n)
-                    && !self.static_env.is_declared(name)
-                    && self.max_numparam_stack.is_in_block() =>
-            {
-                if true {
-                    /* definitely an implicit param */
+        let n = match name.as_bytes()[..] {
+            [b'_', n] if (b'1'..=b'9').contains(&n) => n,
+            _ => return false,
+        };
+        if !self.max_numparam_stack.is_in_block() {
+            return false;
+        }
 
-                    if self.max_numparam_stack.has_ordinary_params() {
-                        self.error(DiagnosticMessage::OrdinaryParamDefined {}, loc);
-                    }
+        let mut raw_max_numparam_stack = self.max_numparam_stack.inner_clone();
 
-                    let mut raw_max_numparam_stack = self.max_numparam_stack.inner_clone();
+        /* ignore current block scope */
+        let current_scope = raw_max_numparam_stack.pop().unwrap_or_default();
 
-                    /* ignore current block scope */
-                    raw_max_numparam_stack.pop();
+        let used_in_outer_block = raw_max_numparam_stack
+            .iter()
+            .rev()
+            /* an outer scope that can't have numparams like def/class/etc */
+            .take_while(|outer_scope| !outer_scope.is_static)
+            .any(|outer_scope| outer_scope.value > 0);
 
-                    for outer_scope in raw_max_numparam_stack.iter().rev() {
-                        if outer_scope.is_static {
-                            /* found an outer scope that can't have numparams
-                            like def/class/etc */
-                            break;
-                        } else {
-                            let outer_scope_has_numparams = outer_scope.value > 0;
-
-                            if outer_scope_has_numparams {
-                                self.error(DiagnosticMessage::NumparamUsed {}, loc);
-                            } else {
-                                /* for now it's ok, but an outer scope can also be a block
-                                like proc { _1; proc { proc { proc { _2 }} }}
-                                with numparams, so we need to continue */
-                            }
-                        }
-                    }
+        if current_scope.value <= 0 && !used_in_outer_block && self.static_env.is_declared(name) {
+            /* a local variable that has been declared by the user of the parser */
+            return false;
+        }
 
-                    self.static_env.declare(name);
-                    self.max_numparam_stack.register((n - b'0') as i32);
+        /* definitely an implicit param */
 
-                    true
-                } else {
-                    false
-                }
-            }
-            _ => false,
+        if self.max_numparam_stack.has_ordinary_params() {
+            self.error(DiagnosticMessage::OrdinaryParamDefined {}, loc);
         }
+
+        if used_in_outer_block || current_scope.used_in_inner_block {
+            self.error(DiagnosticMessage::NumparamUsed {}, loc);
+        }
+
+        self.static_env.declare(name);
+        self.max_numparam_stack.register((n - b'0') as i32);
+
+        true
     }
 }
 
diff --git a/src/max_numparam_stack.rs b/src/max_numparam_stack.rs
index f4f1ead..a0e8a70 100644
--- a/src/max_numparam_stack.rs
+++ b/src/max_numparam_stack.rs
@@ -5,6 +5,8 @@ use std::rc::Rc;
 pub(crate) struct StackItem {
     pub(crate) value: i32,
     pub(crate) is_static: bool,
+    /// true if a block that has been closed in this scope used numbered parameters
+    pub(crate) used_in_inner_block: bool,
 }
 
 #[derive(Debug, Clone, Default)]
@@ -59,11 +61,24 @@ impl MaxNumparamStack {
         self.stack.borrow_mut().push(StackItem {
             value: 0,
             is_static,
+            used_in_inner_block: false,
         })
     }
 
     pub(crate) fn pop(&self) {
-        self.stack.borrow_mut().pop();
+        let mut stack = self.stack.borrow_mut();
+        match stack.pop() {
+            Some(StackItem {
+                value,
+                is_static: false,
+                used_in_inner_block,
+            }) if value > 0 || used_in_inner_block => {
+                if let Some(outer) = stack.last_mut() {
+                    outer.used_in_inner_block = true;
+                }
+            }
+            _ => {}
+        }
     }
 
     fn set(&self, value: i32) {
-- 
2.43.0


From 33764bc1b8973e4678e3ec77a4dc90475de9a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:58 +0000
Subject: [PATCH 24/56] fix: numbered parameter as a variable of a hash pattern

---
 src/builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 16dba01..08a8ce4 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3321,6 +3321,7 @@ impl Builder {
         let name = value(name_t);
 
         self.check_lvar_name(name.as_str(), &name_l)?;
+        self.check_reserved_for_numparam(name.as_str(), &name_l)?;
         self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
         self.static_env.declare(name.as_str());
 
@@ -3356,6 +3357,7 @@ impl Builder {
                 let mut name_l = expression_l;
 
                 self.check_lvar_name(name.as_str(), &name_l)?;
+                self.check_reserved_for_numparam(name.as_str(), &name_l)?;
                 self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
 
                 self.static_env.declare(name.as_str());
-- 
2.43.0


From 51b29afb755c36bac7042b4593fcf9b3f44d32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 25/56] fix: numbered parameter as a rest variable of a pattern

---
 src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builder.rs b/src/builder.rs
index 08a8ce4..79daf06 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3304,6 +3304,7 @@ impl Builder {
         let name = value(name_t);
 
         self.check_lvar_name(name.as_str(), &name_l)?;
+        self.check_reserved_for_numparam(name.as_str(), &name_l)?;
         self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
         self.static_env.declare(name.as_str());
 
-- 
2.43.0


From b41fdd4644e8b1845f2b3ecf0d75e0a6caf446f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:41 +0000
Subject: [PATCH 26/56] fix: comparing argument names doesn't panic on
 non-ASCII names

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 79daf06..9c6b439 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3903,7 +3903,7 @@ impl Builder {
     }
 
     pub(crate) fn arg_name_collides(&self, this_name: &str, that_name: &str) -> bool {
-        &this_name[0..1] != "_" && this_name == that_name
+        !this_name.starts_with('_') && this_name == that_name
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-- 
2.43.0


From 775c1abe8d1a313286b98d506605792e79fe8928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:44 +0000
Subject: [PATCH 27/56] fix: shorthand hash label that starts with '_' or a
 caseless letter is not a constant

---
 src/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 9c6b439..6b6ea37 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -823,13 +823,8 @@ impl Builder {
             .chars()
             .next()
             .expect("bug: label can't be empty")
-            .is_lowercase()
+            .is_uppercase()
         {
-            Box::new(Node::Lvar(Lvar {
-                name: label,
-                expression_l: value_l,
-            }))
-        } else {
             Box::new(Node::Const(Const {
                 scope: None,
                 name: label,
@@ -837,6 +832,11 @@ impl Builder {
                 name_l: value_l,
                 expression_l: value_l,
             }))
+        } else {
+            Box::new(Node::Lvar(Lvar {
+                name: label,
+                expression_l: value_l,
+            }))
         };
 
         self.pair_keyword(key_t, self.accessible(value))
-- 
2.43.0


From 49ab6faea034aa2b51e47fa11f1ba0f5ee6e75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:49 +0000
Subject: [PATCH 28/56] fix: keyword parameters and pattern variables accept
 exactly local variable names

---
 src/builder.rs     |  5 ++++-
 src/parser/parse.y | 12 +++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6b6ea37..c32d931 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3913,7 +3913,10 @@ impl Builder {
             .expect("local variable name can't be empty");
         let mut rest = all_chars;
 
-        if (first.is_lowercase() || first == '_') && rest.all(|c| c.is_alphanumeric() || c == '_') {
+        if (first.is_alphabetic() || first == '_' || !first.is_ascii())
+            && !first.is_uppercase()
+            && rest.all(|c| c.is_alphanumeric() || c == '_' || !c.is_ascii())
+        {
             Ok(())
         } else {
             self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
diff --git a/src/parser/parse.y b/src/parser/parse.y
index f76e017..fb26ac2 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -7031,7 +7031,17 @@ impl Parser {
     fn check_kwarg_name(&self, ident_t: &Token) -> Result<(), ()> {
         let name = clone_value(ident_t);
         let first_char = name.as_str().chars().next().expect("kwarg name can't be empty");
-        if first_char.is_lowercase() || first_char == '_' {
+        if name.ends_with('?') || name.ends_with('!') {
+            let loc = ident_t.loc.adjust_end(-1);
+            self.diagnostics.emit(
+                Diagnostic {
+                    level: ErrorLevel::Error,
+                    message: DiagnosticMessage::KeyMustBeValidAsLocalVariable {},
+                    loc
+                }
+            );
+            Err(())
+        } else if !first_char.is_uppercase() {
             Ok(())
         } else {
             let loc = ident_t.loc;
-- 
2.43.0


From e0349d6a82891f48486b5ff858a440ae35ccac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:21 +0000
Subject: [PATCH 29/56] fix: a pattern key without value is checked for
 duplicates too

---
 src/builder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index c32d931..af3fbae 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3622,8 +3622,18 @@ impl Builder {
 
     pub(crate) fn match_label(&self, p_kw_label: PKwLabel) -> Result<Box<Node>, ()> {
         match p_kw_label {
-            PKwLabel::PlainLabel(label_t) => self.match_hash_var(label_t),
+            PKwLabel::PlainLabel(label_t) => {
+                self.check_duplicate_pattern_key(
+                    clone_value(&label_t).as_str(),
+                    &self.loc(&label_t),
+                )?;
+                self.match_hash_var(label_t)
+            }
             PKwLabel::QuotedLabel((begin_t, parts, end_t)) => {
+                if let Some(var_name) = Self::static_string(&parts) {
+                    let label_loc = self.loc(&begin_t).join(&self.loc(&end_t));
+                    self.check_duplicate_pattern_key(&var_name, &label_loc)?;
+                }
                 self.match_hash_var_from_str(begin_t, parts, end_t)
             }
         }
-- 
2.43.0


From 37cdd805a4775f7e1b7e004d0aa3fd8547c7f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:13 +0000
Subject: [PATCH 30/56] fix: reject a block given to super or an index call
 that already passes a block argument

---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index af3fbae..0766bd5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2114,6 +2114,12 @@ impl Builder {
             Node::CSend(CSend { args, .. }) => {
                 validate_block_and_block_arg(args)?;
             }
+            Node::Super(Super { args, .. }) => {
+                validate_block_and_block_arg(args)?;
+            }
+            Node::Index(Index { indexes, .. }) => {
+                validate_block_and_block_arg(indexes)?;
+            }
             _ => {}
         }
 
-- 
2.43.0


From b6ce89ffbfd04987acb98c0082d60c624b8e2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:41 +0000
Subject: [PATCH 31/56] fix: end a program with a comment on an unterminated
 last line at the end of the input

---
 src/lexer/main.rs    |  2 +-
 src/source/buffer.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index d2b227b..74d0786 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -148,7 +148,7 @@ impl Lexer {
 
         if token_type == Self::tNL {
             token_value = Bytes::new(vec![b'\n']);
-            end = begin + 1;
+            end = (begin + 1).min(self.buffer.input.len());
         }
 
         let token = self.tokens_factory.alloc(Token {
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index a57cd93..92efb4f 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -301,10 +301,14 @@ impl Buffer {
     }
 
     pub(crate) fn eof_no_decrement(&mut self) {
+        if self.eofp {
+            // the last line has no terminator
+            self.goto_eol();
+            self.set_ptok(self.pcur);
+            return;
+        }
         if let Some(prevline) = self.prevline {
-            if !self.eofp {
-                self.lastline = prevline;
-            }
+            self.lastline = prevline;
         }
         self.pbeg = self.input.line_at(self.lastline).start;
         self.pend = self.pbeg + self.input.line_at(self.lastline).len();
-- 
2.43.0


From 705d4d746e967f79cd32d29ce5ff9648f084890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:56 +0000
Subject: [PATCH 32/56] fix: a comment with a non-UTF-8 word before a colon
 silently ended the program

---
 src/lexer/parse_magic_comment.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 537d21e..aa142ca 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -306,13 +306,12 @@ impl Lexer {
             }
 
             let n = end - beg;
-            name = String::from_utf8(
+            name = String::from_utf8_lossy(
                 self.buffer
                     .substr_at(beg, beg + n)
-                    .expect("failed to get magic comment name")
-                    .to_vec(),
+                    .expect("failed to get magic comment name"),
             )
-            .map_err(|_| ())?;
+            .into_owned();
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-- 
2.43.0


From 7a89ebcba9f9be77b7466b0ac9d385ec75e0f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:56 +0000
Subject: [PATCH 33/56] fix: names of magic comments are case-insensitive

---
 src/lexer/parse_magic_comment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index aa142ca..f037bc7 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -315,7 +315,7 @@ impl Lexer {
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-                if &name_to_compare == name {
+                if name_to_compare.eq_ignore_ascii_case(name) {
                     if kind == &MagicCommentKind::Encoding && self.comment_at_top() {
                         let encoding = match String::from_utf8(
                             self.buffer
-- 
2.43.0


From 1f502c5e8675a895d3efab26f5b1331dbadf7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:15 +0000
Subject: [PATCH 34/56] fix: keep the input when it cannot be decoded, so that
 the reported range lies in it

---
 src/source/decoded_input.rs | 4 ----
 src/source/input.rs         | 2 +-
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/source/decoded_input.rs b/src/source/decoded_input.rs
index 2889130..9beca55 100644
--- a/src/source/decoded_input.rs
+++ b/src/source/decoded_input.rs
@@ -31,10 +31,6 @@ impl DecodedInput {
         self.bytes
     }
 
-    pub(crate) fn take_bytes(&mut self) -> Vec<u8> {
-        std::mem::take(&mut self.bytes)
-    }
-
     /// Populates `Input` with a given byte array
     pub fn update_bytes(&mut self, bytes: Vec<u8>) {
         let mut line = SourceLine {
diff --git a/src/source/input.rs b/src/source/input.rs
index a124351..0fb942b 100644
--- a/src/source/input.rs
+++ b/src/source/input.rs
@@ -64,7 +64,7 @@ impl Input {
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
         let new_input = decode_input(
-            self.decoded.take_bytes(),
+            self.decoded.as_shared_bytes().to_vec(),
             String::from(encoding),
             &mut self.decoder,
         )
-- 
2.43.0


From d3654fe569d1c9907686343edd075912bc00c3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:01 +0000
Subject: [PATCH 35/56] fix: after decoding the input, continue at the right
 place of the decoded text

---
 src/lexer/parse_magic_comment.rs | 19 +++++++++++++++++--
 src/source/buffer.rs             | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index f037bc7..fc06a4f 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -160,6 +160,7 @@ impl Lexer {
         if len <= 7 {
             return Ok(false);
         }
+        let magic_comments_count = self.magic_comments.len();
         let mut beg = self.magic_comment_marker(str_, len);
         if beg != 0 {
             end = self.magic_comment_marker(beg, str_ + len - beg);
@@ -316,7 +317,10 @@ impl Lexer {
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
                 if name_to_compare.eq_ignore_ascii_case(name) {
-                    if kind == &MagicCommentKind::Encoding && self.comment_at_top() {
+                    if kind == &MagicCommentKind::Encoding
+                        && !self.buffer.encoding_set
+                        && self.comment_at_top()
+                    {
                         let encoding = match String::from_utf8(
                             self.buffer
                                 .substr_at(vbeg, vend)
@@ -339,7 +343,18 @@ impl Lexer {
                             }
                         };
                         match self.buffer.set_encoding(&encoding) {
-                            Ok(_) => {}
+                            Ok(_) => {
+                                // All positions refer to the input before decoding, start over
+                                self.magic_comments.truncate(magic_comments_count);
+                                for shebang in self.comments.iter_mut() {
+                                    shebang.location.end = self.buffer.input.line_at(0).end;
+                                }
+                                self.magic_comment(
+                                    self.buffer.pcur,
+                                    self.buffer.pend - self.buffer.pcur,
+                                )?;
+                                return Ok(true);
+                            }
                             Err(err) => {
                                 self.yyerror1(
                                     DiagnosticMessage::EncodingError {
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 92efb4f..e2aba64 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -30,6 +30,7 @@ pub(crate) struct Buffer {
     pub(crate) tokline: usize,
 
     pub(crate) has_shebang: bool,
+    pub(crate) encoding_set: bool,
 
     /* current line no. */
     pub(crate) ruby_sourceline: usize,
@@ -327,7 +328,22 @@ impl Buffer {
     }
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
-        self.input.set_encoding(encoding)
+        let old_start = self.input.line_at(self.lastline).start;
+        self.input.set_encoding(encoding)?;
+        self.encoding_set = true;
+
+        // The current line may have moved and may have got another length
+        self.line_count = self.line_count.min(self.input.lines_count());
+        self.lastline = self.lastline.min(self.line_count - 1);
+        let line = self.input.line_at(self.lastline);
+        let (start, end) = (line.start, line.end);
+        let moved = |pos: usize| (pos - old_start + start).min(end);
+        self.pbeg = moved(self.pbeg);
+        self.pcur = moved(self.pcur);
+        self.ptok = moved(self.ptok);
+        self.pend = end;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 49c0f77171bfb4e77063b6ef3e04e6d5b6be7c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:38 +0000
Subject: [PATCH 36/56] fix: a heredoc body or word that starts with #@x starts
 at the #

---
 src/builder.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 0766bd5..d304423 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -666,6 +666,7 @@ impl Builder {
             end_l,
             expression_l,
         } = self.collection_map(&None, &parts, &None);
+        let expression_l = string_parts_expr(&parts).unwrap_or(expression_l);
 
         Box::new(Node::Dstr(Dstr {
             parts,
@@ -4126,7 +4127,7 @@ impl Builder {
         let begin_t = begin_t.as_ref().expect("bug: begin_t must be Some");
         let end_t = end_t.as_ref().expect("heredoc must have end_t");
 
-        let heredoc_body_l = collection_expr(parts).unwrap_or_else(|| self.loc(end_t));
+        let heredoc_body_l = string_parts_expr(parts).unwrap_or_else(|| self.loc(end_t));
         let expression_l = self.loc(begin_t);
         let heredoc_end_l = self.loc(end_t);
 
@@ -4327,6 +4328,18 @@ pub(crate) fn collection_expr(nodes: &[Node]) -> Option<Loc> {
     join_maybe_exprs(&nodes.first(), &nodes.last())
 }
 
+/// Same as `collection_expr`, but for parts of a string without opening delimiter:
+/// `#` of an interpolated variable (`#@foo`) is not a part of the variable
+pub(crate) fn string_parts_expr(parts: &[Node]) -> Option<Loc> {
+    let loc = collection_expr(parts)?;
+    match parts.first() {
+        Some(
+            Node::Ivar(_) | Node::Cvar(_) | Node::Gvar(_) | Node::BackRef(_) | Node::NthRef(_),
+        ) => Some(loc.with_begin(loc.begin - 1)),
+        _ => Some(loc),
+    }
+}
+
 pub(crate) fn value(mut token: PoolValue<Token>) -> String {
     token.take_value().into_string().unwrap()
 }
-- 
2.43.0


From 5d0d0daa216fe8e6c4bda8ee4c5ae98607093acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:43 +0000
Subject: [PATCH 37/56] fix: an executable heredoc body that starts with #@x
 starts at the #

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index d304423..b3a2240 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -422,7 +422,7 @@ impl Builder {
 
         let begin = &begin_t.token_value;
         if begin.len() >= 2 && begin[0] == b'<' && begin[1] == b'<' {
-            let heredoc_body_l = collection_expr(&parts).unwrap_or_else(|| self.loc(&end_t));
+            let heredoc_body_l = string_parts_expr(&parts).unwrap_or_else(|| self.loc(&end_t));
             let heredoc_end_l = self.loc(&end_t);
             let expression_l = begin_l;
 
-- 
2.43.0


From fe262518ca9f0e98b094868fb92176fbdf5b0220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:47 +0000
Subject: [PATCH 38/56] fix: ignore the end-of-line suffix of Emacs encoding
 names (utf-8-unix)

---
 src/lexer/parse_magic_comment.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index fc06a4f..73134de 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -20,6 +20,17 @@ const MAGIC_COMMENTS: &[MagicCommentData] = &[
     ("warn_indent", MagicCommentKind::WarnIndent),
 ];
 
+/// Emacs appends the kind of line endings to the name of the encoding
+fn without_eol_suffix(encoding: &str) -> &str {
+    let lower = encoding.to_ascii_lowercase();
+    for suffix in ["-unix", "-dos", "-mac"] {
+        if lower.len() > suffix.len() && lower.ends_with(suffix) && lower != "utf8-mac" {
+            return &encoding[..encoding.len() - suffix.len()];
+        }
+    }
+    encoding
+}
+
 impl Lexer {
     pub(crate) fn comment_at_top(&self) -> bool {
         let mut ptr = self.buffer.pbeg;
@@ -342,7 +353,7 @@ impl Lexer {
                                 return Err(());
                             }
                         };
-                        match self.buffer.set_encoding(&encoding) {
+                        match self.buffer.set_encoding(without_eol_suffix(&encoding)) {
                             Ok(_) => {
                                 // All positions refer to the input before decoding, start over
                                 self.magic_comments.truncate(magic_comments_count);
-- 
2.43.0


From 439c3eabdfecd6b436f730f4aae4020be548bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:19 +0000
Subject: [PATCH 39/56] fix: name the % operator once in the ambiguous operator
 warning

---
 src/lexer/parse_percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_percent.rs b/src/lexer/parse_percent.rs
index 49ccaf8..e663045 100644
--- a/src/lexer/parse_percent.rs
+++ b/src/lexer/parse_percent.rs
@@ -145,7 +145,7 @@ impl Lexer {
         self.buffer.pushback(c);
         self.warn_balanced(
             Self::tPERCENT,
-            "%%",
+            "%",
             "string literal",
             c,
             space_seen,
-- 
2.43.0


From ad51650924a61f29975d1fc60ab7eec87fb9704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:23 +0000
Subject: [PATCH 40/56] fix: keep the ranges of an unterminated regexp inside
 the input

---
 src/builder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index b3a2240..cc08f2d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -568,8 +568,8 @@ impl Builder {
     // Regular expressions
 
     pub(crate) fn regexp_options(&self, regexp_end_t: PoolValue<Token>) -> Option<Box<Node>> {
-        if regexp_end_t.loc.end - regexp_end_t.loc.begin == 1 {
-            // no regexp options, only trailing "/"
+        if regexp_end_t.loc.end - regexp_end_t.loc.begin <= 1 {
+            // no regexp options, only trailing "/" (or nothing if it is unterminated)
             return None;
         }
         let expression_l = self.loc(&regexp_end_t).adjust_begin(1);
@@ -597,7 +597,8 @@ impl Builder {
         options: Option<Box<Node>>,
     ) -> Box<Node> {
         let begin_l = self.loc(&begin_t);
-        let end_l = self.loc(&end_t).resize(1);
+        let end_l = self.loc(&end_t);
+        let end_l = end_l.resize(std::cmp::min(end_l.size(), 1));
         let expression_l =
             begin_l.join(&maybe_boxed_node_expr(&options).unwrap_or_else(|| self.loc(&end_t)));
 
-- 
2.43.0


From f855925803853f4301087505de946ea2d6a4c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:26 +0000
Subject: [PATCH 41/56] fix: a character literal with a malformed escape starts
 at its question mark

---
 src/lexer/parse_qmark.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_qmark.rs b/src/lexer/parse_qmark.rs
index 106b9c7..a9d3625 100644
--- a/src/lexer/parse_qmark.rs
+++ b/src/lexer/parse_qmark.rs
@@ -69,9 +69,9 @@ impl Lexer {
             }
             return self.parse_qmark_ternary(c);
         } else if c == b'\\' {
+            // reading the escape may move ptok
+            self.lval_start = Some(self.buffer.ptok);
             if self.buffer.peek(b'u') {
-                // reading the escape moves ptok
-                self.lval_start = Some(self.buffer.ptok);
                 self.nextc();
                 self.tokadd_utf8(None, 0, 0);
             } else if !self.buffer.is_eol() && !self.char_at(self.buffer.pcur).is_ascii() {
-- 
2.43.0


From 01ff220e3d6346033d2a902fefdcb2a4c83065f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 42/56] fix: keep the range of a truncated unicode escape
 inside the input

---
 src/lexer/parse_string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 6ba9552..eb34197 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -464,7 +464,10 @@ impl Lexer {
         } {
             self.yyerror1(
                 DiagnosticMessage::InvalidUnicodeEscape {},
-                self.loc(self.buffer.pcur, self.buffer.pcur + 1),
+                self.loc(
+                    self.buffer.pcur,
+                    std::cmp::min(self.buffer.pcur + 1, self.buffer.pend),
+                ),
             );
             return wide && numlen > 0;
         }
-- 
2.43.0


From 759ab3e00a4b7046fc3848a93d4b885ae393dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:24 +0000
Subject: [PATCH 43/56] fix: keep the range of an unterminated unicode escape
 inside the input

---
 src/lexer/parse_string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index eb34197..1e4ff77 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -381,7 +381,10 @@ impl Lexer {
         self.token_flush();
         self.yyerror1(
             DiagnosticMessage::UnterminatedUnicodeEscape {},
-            self.loc(self.buffer.ptok, self.buffer.pcur + 1),
+            self.loc(
+                self.buffer.ptok,
+                std::cmp::min(self.buffer.pcur + 1, self.buffer.pend),
+            ),
         );
     }
 
-- 
2.43.0


From db6dea093113d574d5dfec33c5dddb77f9ee4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:41 +0000
Subject: [PATCH 44/56] fix: a newline after a heredoc that ends the input is
 at the end of its own line

---
 src/source/buffer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index e2aba64..346f361 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -303,8 +303,11 @@ impl Buffer {
 
     pub(crate) fn eof_no_decrement(&mut self) {
         if self.eofp {
-            // the last line has no terminator
+            // the last line has no terminator (after a heredoc it is not the current one)
             self.goto_eol();
+            if self.pend > self.pbeg && self.input.unchecked_byte_at(self.pend - 1) == b'\n' {
+                self.pushback(1);
+            }
             self.set_ptok(self.pcur);
             return;
         }
-- 
2.43.0


From 50e37c2d10f2fb388e7d6d21f57576ee6e74aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:47 +0000
Subject: [PATCH 45/56] fix: a newline after a label and a comment is at the
 end of the comment

---
 src/lexer/main.rs    |  4 ++++
 src/source/buffer.rs | 15 ++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 74d0786..51939dd 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -260,6 +260,10 @@ impl Lexer {
                         && !self.lex_state.is_some(EXPR_LABELED);
                     if cc || self.lex_state.is_all(EXPR_ARG | EXPR_LABELED) {
                         if !cc && self.context.in_kwarg() {
+                            if c == b'#' {
+                                // the comment is not a part of the newline
+                                self.buffer.goto_newline();
+                            }
                             return self.normal_newline_leaf_label();
                         }
                         continue 'retrying;
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 346f361..14d5bc2 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -301,14 +301,19 @@ impl Buffer {
         }
     }
 
+    // Starts a token at the terminator of the current line (or at its end if there's none)
+    pub(crate) fn goto_newline(&mut self) {
+        self.goto_eol();
+        if self.pend > self.pbeg && self.input.unchecked_byte_at(self.pend - 1) == b'\n' {
+            self.pushback(1);
+        }
+        self.set_ptok(self.pcur);
+    }
+
     pub(crate) fn eof_no_decrement(&mut self) {
         if self.eofp {
             // the last line has no terminator (after a heredoc it is not the current one)
-            self.goto_eol();
-            if self.pend > self.pbeg && self.input.unchecked_byte_at(self.pend - 1) == b'\n' {
-                self.pushback(1);
-            }
-            self.set_ptok(self.pcur);
+            self.goto_newline();
             return;
         }
         if let Some(prevline) = self.prevline {
-- 
2.43.0


From dc81537ea90035f5b2506e3122c3c33ab066597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:59 +0000
Subject: [PATCH 46/56] fix: report an invalid octal digit only once

---
 src/lexer/parse_numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index c7a5a5f..c8016c3 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -286,7 +286,7 @@ impl Lexer {
                 break;
             }
             if *c > b'7' {
-                self.invalid_octal();
+                // reported by the caller
                 return None;
             }
             *nondigit = None;
-- 
2.43.0


From 701173fd218d9052cb82ab35bdd63a6092f545b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:04 +0000
Subject: [PATCH 47/56] fix: a trailing underscore before a fraction or an
 exponent is reported at the underscore

---
 src/lexer/parse_numeric.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index c8016c3..c017996 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -200,6 +200,7 @@ impl Lexer {
 
                 Some(b'.') => {
                     if let Some(MaybeByte::Some(byte)) = nondigit {
+                        self.buffer.pushback(c);
                         return self.trailing_uc(byte);
                     }
                     if seen_point.is_some() || seen_e {
@@ -220,9 +221,7 @@ impl Lexer {
                 }
 
                 Some(b'e') | Some(b'E') => {
-                    if let Some(nondigit_value) = &nondigit {
-                        self.buffer.pushback(c);
-                        c = *nondigit_value;
+                    if nondigit.is_some() {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
                     if seen_e {
-- 
2.43.0


From 7772124cc17ba6b84491cc1780e913c73898f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:08 +0000
Subject: [PATCH 48/56] fix: an octal prefix without digits does not swallow
 the next character

---
 src/lexer/parse_numeric.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index c017996..c24eb7c 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -165,6 +165,7 @@ impl Lexer {
                 // prefixed octal
                 c = self.nextc();
                 if c.is_eof() || c == b'_' || !c.is_digit() {
+                    self.buffer.pushback(c);
                     return self.no_digits();
                 }
             }
-- 
2.43.0


From 1a656d3236e1efeb480ee337800ae4b7a89d2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:32 +0000
Subject: [PATCH 49/56] fix: "$" before any whitespace is a variable without a
 name, reported at the "$"

---
 src/lexer/parse_gvar.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_gvar.rs b/src/lexer/parse_gvar.rs
index 3a05edb..3879b52 100644
--- a/src/lexer/parse_gvar.rs
+++ b/src/lexer/parse_gvar.rs
@@ -97,7 +97,11 @@ impl Lexer {
             _ => {
                 if !self.is_identchar() {
                     match c.as_option() {
-                        None | Some(b' ') => self.compile_error(DiagnosticMessage::GvarWithoutId {}, self.current_loc()),
+                        None => self.compile_error(DiagnosticMessage::GvarWithoutId {}, self.current_loc()),
+                        Some(_) if c.is_space() => {
+                            self.buffer.pushback(c);
+                            self.compile_error(DiagnosticMessage::GvarWithoutId {}, self.current_loc());
+                        }
                         Some(name) => {
                             // The following line comes from MRI, but it seems to be a bug
                             // self.buffer.pushback(c);
-- 
2.43.0


From 69a00396345696d787f1136fb2828969e74582dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:16 +0000
Subject: [PATCH 50/56] fix: warn once about a hash key that repeats several
 earlier ones

---
 src/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index cc08f2d..ff50ca5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -861,8 +861,8 @@ impl Builder {
         pairs: Vec<Node>,
         end_t: Option<PoolValue<Token>>,
     ) -> Box<Node> {
-        for i in 0..pairs.len() {
-            for j in i + 1..pairs.len() {
+        for j in 1..pairs.len() {
+            for i in 0..j {
                 let key1 = if let Node::Pair(Pair { key, .. }) = &pairs[i] {
                     &**key
                 } else {
@@ -942,6 +942,7 @@ impl Builder {
 
                 if do_warn {
                     self.warn(DiagnosticMessage::DuplicateHashKey {}, key2.expression());
+                    break;
                 }
             }
         }
-- 
2.43.0


From a78f0f09d0e9950098e673eb8dfb2bb6edd1511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:21 +0000
Subject: [PATCH 51/56] fix: regexps with equal options are equal hash keys

---
 src/builder.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index ff50ca5..2819bd4 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -914,6 +914,16 @@ impl Builder {
                             Node::Complex(Complex { value: value2, .. }),
                         ) if value1 == value2 => true,
 
+                        // regexp options
+                        (
+                            Node::RegOpt(RegOpt {
+                                options: options1, ..
+                            }),
+                            Node::RegOpt(RegOpt {
+                                options: options2, ..
+                            }),
+                        ) if options1 == options2 => true,
+
                         // regexp
                         (
                             Node::Regexp(Regexp {
@@ -926,8 +936,16 @@ impl Builder {
                                 options: options2,
                                 ..
                             }),
-                        ) if options1 == options2 => {
-                            parts1.len() == parts2.len()
+                        ) => {
+                            let options_are_equal = match (options1, options2) {
+                                (Some(options1), Some(options2)) => {
+                                    keys_are_equal(options1, options2)
+                                }
+                                (None, None) => true,
+                                _ => false,
+                            };
+                            options_are_equal
+                                && parts1.len() == parts2.len()
                                 && parts1
                                     .iter()
                                     .zip(parts2.iter())
-- 
2.43.0


From b7eb6579b6883540fe8dd3fdc5be7889b39d2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:43 +0000
Subject: [PATCH 52/56] fix: CRLF line endings in raw heredocs are newlines

---
 src/lexer/parse_heredoc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 4f3e484..5134b28 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -168,6 +168,8 @@ impl Lexer {
                                 || self.buffer.input.unchecked_byte_at(ptr_end - 1) != b'\r'
                             {
                                 ptr_end += 1;
+                            } else {
+                                ptr_end -= 1;
                             }
                         }
                         b'\r' => {
-- 
2.43.0


From b28faacb10e8afac5a1f2f5f3b4ae56b3fc484a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:48 +0000
Subject: [PATCH 53/56] fix: honour encoding declarations that are not magic
 comments

---
 src/lexer/main.rs                |   9 ++-
 src/lexer/parse_magic_comment.rs | 117 ++++++++++++++++---------------
 2 files changed, 68 insertions(+), 58 deletions(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 51939dd..04e0843 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -243,8 +243,13 @@ impl Lexer {
                             .magic_comment(self.buffer.pcur, self.buffer.pend - self.buffer.pcur);
                         match magic_comment {
                             Ok(magic_comment) => {
-                                if !magic_comment && self.comment_at_top() {
-                                    self.set_file_encoding(self.buffer.pcur, self.buffer.pend)
+                                if !magic_comment
+                                    && self.comment_at_top()
+                                    && self
+                                        .set_file_encoding(self.buffer.pcur, self.buffer.pend)
+                                        .is_err()
+                                {
+                                    return Self::END_OF_INPUT;
                                 }
                             }
                             Err(_) => return Self::END_OF_INPUT,
diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 73134de..cde5ce2 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -47,12 +47,16 @@ impl Lexer {
         true
     }
 
-    pub(crate) fn set_file_encoding(&mut self, mut str_: usize, send: usize) {
+    pub(crate) fn set_file_encoding(
+        &mut self,
+        mut str_: usize,
+        send: usize,
+    ) -> Result<(), ()> {
         let mut sep = false;
 
         loop {
             if send - str_ <= 6 {
-                return;
+                return Ok(());
             }
             match self.char_at(str_ + 6).as_option() {
                 Some(b'C') | Some(b'c') => {
@@ -92,8 +96,10 @@ impl Lexer {
                     }
                 }
             }
-            if self.buffer.substr_at(str_ - 6, str_) == Some(b"coding") {
-                break;
+            if let Some(name) = self.buffer.substr_at(str_ - 6, str_) {
+                if name.eq_ignore_ascii_case(b"coding") {
+                    break;
+                }
             }
             sep = false;
         }
@@ -101,7 +107,7 @@ impl Lexer {
             loop {
                 str_ += 1;
                 if str_ >= send {
-                    return;
+                    return Ok(());
                 }
                 if !(self.char_at(str_).is_space()) {
                     break;
@@ -112,24 +118,59 @@ impl Lexer {
             }
             let c = self.char_at(str_);
             if c != b'=' && c != b':' {
-                return;
+                return Ok(());
             }
             sep = true;
             str_ += 1;
         }
         let beg = str_;
 
-        while self.char_at(str_) == b'-'
-            || self.char_at(str_) == b'_'
-            || self.char_at(str_).is_alnum() && str_ + 1 < send
+        while str_ < send
+            && (self.char_at(str_) == b'-'
+                || self.char_at(str_) == b'_'
+                || self.char_at(str_).is_alnum())
         {
             str_ += 1;
         }
 
-        let _enc_name = self
+        if self.buffer.encoding_set {
+            return Ok(());
+        }
+        self.set_encoding_from_comment(beg, str_)
+    }
+
+    fn set_encoding_from_comment(&mut self, vbeg: usize, vend: usize) -> Result<(), ()> {
+        let encoding = self
             .buffer
-            .substr_at(beg, str_)
-            .expect("failed to get encoding comment value");
+            .substr_at(vbeg, vend)
+            .expect("bug: Can't be None")
+            .to_vec();
+        let result = match String::from_utf8(encoding) {
+            Ok(encoding) => self
+                .buffer
+                .set_encoding(without_eol_suffix(&encoding))
+                .map_err(|err| err.to_string()),
+            Err(err) => Err(format!(
+                "unknown encoding name: {}",
+                String::from_utf8_lossy(err.as_bytes())
+            )),
+        };
+        match result {
+            Ok(_) => {
+                // All positions refer to the input before decoding
+                for shebang in self.comments.iter_mut() {
+                    shebang.location.end = self.buffer.input.line_at(0).end;
+                }
+                Ok(())
+            }
+            Err(error) => {
+                self.yyerror1(
+                    DiagnosticMessage::EncodingError { error },
+                    self.loc(vbeg, vend),
+                );
+                Err(())
+            }
+        }
     }
 
     fn magic_comment_marker(&self, str_: usize, len: usize) -> usize {
@@ -332,50 +373,14 @@ impl Lexer {
                         && !self.buffer.encoding_set
                         && self.comment_at_top()
                     {
-                        let encoding = match String::from_utf8(
-                            self.buffer
-                                .substr_at(vbeg, vend)
-                                .expect("bug: Can't be None")
-                                .to_vec(),
-                        ) {
-                            Ok(encoding) => encoding,
-                            Err(err) => {
-                                self.yyerror1(
-                                    DiagnosticMessage::EncodingError {
-                                        error: format!(
-                                            "unknown encoding name: {}",
-                                            String::from_utf8_lossy(err.as_bytes())
-                                        ),
-                                    },
-                                    self.loc(vbeg, vend),
-                                );
-
-                                return Err(());
-                            }
-                        };
-                        match self.buffer.set_encoding(without_eol_suffix(&encoding)) {
-                            Ok(_) => {
-                                // All positions refer to the input before decoding, start over
-                                self.magic_comments.truncate(magic_comments_count);
-                                for shebang in self.comments.iter_mut() {
-                                    shebang.location.end = self.buffer.input.line_at(0).end;
-                                }
-                                self.magic_comment(
-                                    self.buffer.pcur,
-                                    self.buffer.pend - self.buffer.pcur,
-                                )?;
-                                return Ok(true);
-                            }
-                            Err(err) => {
-                                self.yyerror1(
-                                    DiagnosticMessage::EncodingError {
-                                        error: err.to_string(),
-                                    },
-                                    self.loc(vbeg, vend),
-                                );
-                                return Err(());
-                            }
-                        }
+                        self.set_encoding_from_comment(vbeg, vend)?;
+                        // All positions refer to the input before decoding, start over
+                        self.magic_comments.truncate(magic_comments_count);
+                        self.magic_comment(
+                            self.buffer.pcur,
+                            self.buffer.pend - self.buffer.pcur,
+                        )?;
+                        return Ok(true);
                     }
 
                     let key_l = self.loc(beg, beg + n);
-- 
2.43.0


From 7874a5e3ba0a8971ac85586d7d9efe0be9d26b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:52 +0000
Subject: [PATCH 54/56] fix: heredocs on the first line after a byte order mark

---
 src/lexer/parse_heredoc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 5134b28..437cc58 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -14,7 +14,8 @@ impl Lexer {
          * term_len is length of `<<"END"` except `END`,
          * in this case term_len is 4 (<, <, " and ").
          */
-        let mut offset = self.buffer.pcur - self.buffer.pbeg;
+        let line_start = self.buffer.input.line_at(self.buffer.lastline).start;
+        let mut offset = self.buffer.pcur - line_start;
         let mut c = self.nextc();
         let term;
         let mut func = 0;
@@ -83,7 +84,7 @@ impl Lexer {
             self.buffer.pushback(c);
         }
 
-        let len = self.buffer.pcur - (self.buffer.pbeg + offset) - quote;
+        let len = self.buffer.pcur - (line_start + offset) - quote;
 
         let id = self
             .buffer
-- 
2.43.0


From a81cc1e77c581d0f3562d56ca28cad0c9a21e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:55 +0000
Subject: [PATCH 55/56] fix: a percent literal can't be delimited by a part of
 a character

---
 src/lexer/parse_percent.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lexer/parse_percent.rs b/src/lexer/parse_percent.rs
index e663045..ec06ab1 100644
--- a/src/lexer/parse_percent.rs
+++ b/src/lexer/parse_percent.rs
@@ -8,15 +8,17 @@ use crate::{lex_states::*, LexState};
 impl Lexer {
     fn percent_unknown(&mut self, term: MaybeByte) -> i32 {
         self.buffer.pushback(term);
+        let mut loc = self.current_loc();
         let len = self.multibyte_char_len(self.buffer.pcur);
         match len {
             Some(len) => self.buffer.pcur += len,
             None => return Self::END_OF_INPUT,
         }
-        self.yyerror1(
-            DiagnosticMessage::UnknownTypeOfPercentString {},
-            self.current_loc().adjust_end(-1),
-        );
+        if loc.end - loc.begin == 1 {
+            // there's nothing but the delimiter
+            loc = self.current_loc();
+        }
+        self.yyerror1(DiagnosticMessage::UnknownTypeOfPercentString {}, loc);
         Self::END_OF_INPUT
     }
 
@@ -35,7 +37,7 @@ impl Lexer {
             *c = MaybeByte::new(b'Q');
         } else {
             term = self.nextc();
-            if term.is_alnum() {
+            if term.is_alnum() || !(term.is_eof() || term.is_ascii()) {
                 return self.percent_unknown(term);
             }
         }
-- 
2.43.0


From f5f4a5a80d309b35bd258fee95274ee2b6e2b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:00 +0000
Subject: [PATCH 56/56] fix: errors in escape sequences cover whole characters

---
 src/lexer/main.rs         |  6 ++++++
 src/lexer/parse_string.rs | 16 ++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 04e0843..9cb5a17 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -1284,6 +1284,12 @@ impl Lexer {
         result
     }
 
+    /// End of the character that starts at a given position of the current line
+    pub(crate) fn char_end(&self, ptr: usize) -> usize {
+        let len = self._multibyte_char_len(ptr).unwrap_or(1);
+        std::cmp::min(ptr + len, self.buffer.pend)
+    }
+
     pub(crate) fn is_label_suffix(&self, n: usize) -> bool {
         self.buffer.peek_n(b':', n) && !self.buffer.peek_n(b':', n + 1)
     }
diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 1e4ff77..a679e0b 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -383,7 +383,7 @@ impl Lexer {
             DiagnosticMessage::UnterminatedUnicodeEscape {},
             self.loc(
                 self.buffer.ptok,
-                std::cmp::min(self.buffer.pcur + 1, self.buffer.pend),
+                self.char_end(self.buffer.pcur),
             ),
         );
     }
@@ -469,7 +469,7 @@ impl Lexer {
                 DiagnosticMessage::InvalidUnicodeEscape {},
                 self.loc(
                     self.buffer.pcur,
-                    std::cmp::min(self.buffer.pcur + 1, self.buffer.pend),
+                    self.char_end(self.buffer.pcur),
                 ),
             );
             return wide && numlen > 0;
@@ -598,7 +598,10 @@ impl Lexer {
     }
 
     fn tokadd_escape_eof(&mut self) -> Result<(), ()> {
-        self.yyerror0(DiagnosticMessage::InvalidEscapeCharacter {});
+        self.yyerror1(
+            DiagnosticMessage::InvalidEscapeCharacter {},
+            self.loc(self.buffer.ptok, self.char_end(self.buffer.pcur - 1)),
+        );
         self.token_flush();
         Err(())
     }
@@ -639,7 +642,12 @@ impl Lexer {
     }
 
     fn read_escape_eof(&mut self) -> MaybeByte {
-        self.yyerror0(DiagnosticMessage::InvalidEscapeCharacter {});
+        let end = self.char_end(self.buffer.pcur - 1);
+        self.yyerror1(
+            DiagnosticMessage::InvalidEscapeCharacter {},
+            self.loc(self.buffer.ptok, end),
+        );
+        self.buffer.pcur = end;
         self.token_flush();
         MaybeByte::new(0)
     }
-- 
2.43.0

