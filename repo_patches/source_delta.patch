From cdc76fb59529e14fed5dc972b41e5076bcee4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 01/18] fix: keep the token stream when a heredoc body fails to
 parse

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c565d4..4e49210 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1083,8 +1083,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
             mem::swap(&mut self.iter, &mut tok_backup);
-            let mut body = self.word_interpolated_raw(None, heredoc_start_pos)?;
+            let body = self.word_interpolated_raw(None, heredoc_start_pos);
+            // Restore the original token stream even if the body is malformed,
+            // otherwise everything after it would be lost.
             let _ = mem::replace(&mut self.iter, tok_backup);
+            let mut body = body?;
 
             if body.len() > 1 {
                 Concat(body.into_iter().map(Simple).collect())
-- 
2.43.0


From f4f5207e45ba4aa2af1c2d5da044f7dc095aa4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 02/18] fix: strip only leading tabs from <<- heredoc lines

---
 src/parse.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4e49210..07ad801 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1000,27 +1000,29 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
-            'line: loop {
-                if strip_tabs {
-                    let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
-                        let stripped = w.trim_start_matches('\t');
-                        let num_tabs = w.len() - stripped.len();
-                        line_start_pos.advance_tabs(num_tabs);
-
-                        if !stripped.is_empty() {
-                            line.push(Whitespace(stripped.to_owned()));
-                        }
 
-                        true
-                    } else {
-                        false
-                    };
+            // Only the tabs which lead the line are stripped
+            if strip_tabs {
+                let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
+                    let stripped = w.trim_start_matches('\t');
+                    let num_tabs = w.len() - stripped.len();
+                    line_start_pos.advance_tabs(num_tabs);
 
-                    if skip_next {
-                        self.iter.next();
+                    if !stripped.is_empty() {
+                        line.push(Whitespace(stripped.to_owned()));
                     }
+
+                    true
+                } else {
+                    false
+                };
+
+                if skip_next {
+                    self.iter.next();
                 }
+            }
 
+            'line: loop {
                 let next = self.iter.next();
                 match next {
                     // If we haven't grabbed any input we must have hit EOF
-- 
2.43.0


From 1fbfc950f0ff6489276f16328d4c17917d734a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 03/18] fix: keep comments between a for variable and its
 semicolon

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 07ad801..e8d4e2c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2018,7 +2018,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         } else if Some(&Semi) == self.iter.peek() {
             // `for name \n*;\n* do_group`
             eat!(self, { Semi => {} });
-            (None, self.linebreak())
+            let mut pre_body_comments = post_var_comments;
+            pre_body_comments.extend(self.linebreak());
+            (None, pre_body_comments)
         } else if self.peek_reserved_word(&[DO]).is_none() {
             // If we didn't find an `in` keyword, and we havent hit the body
             // (a `do` keyword), then we can reasonably say the script has
-- 
2.43.0


From a03389c5c6161b49b2d9c83fa0ca3dd30f4df61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 04/18] fix: name the right keyword when an until loop lacks
 its body

---
 src/parse.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e8d4e2c..4e91ce5 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1868,10 +1868,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         &mut self,
     ) -> ParseResult<(builder::LoopKind, builder::GuardBodyPairGroup<B::Command>), B::Error> {
         let start_pos = self.iter.pos();
-        let kind = match self
+        let keyword = self
             .reserved_word(&[WHILE, UNTIL])
-            .map_err(|_| self.make_unexpected_err())?
-        {
+            .map_err(|_| self.make_unexpected_err())?;
+        let kind = match keyword {
             WHILE => builder::LoopKind::While,
             UNTIL => builder::LoopKind::Until,
             _ => unreachable!(),
@@ -1889,7 +1889,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 },
             )),
             None => Err(ParseError::IncompleteCmd(
-                WHILE,
+                keyword,
                 start_pos,
                 DO,
                 self.iter.pos(),
-- 
2.43.0


From 4b6f4a1b9466f852c7d2352bc56bb81c79dbdd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 05/18] fix: do not take a signed word for a file descriptor

---
 src/parse.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4e91ce5..9891643 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -719,9 +719,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             }
         }
 
+        fn parse_num(s: &str) -> Option<u16> {
+            // Integer parsing permits a leading +, but a descriptor is made of digits alone
+            if s.bytes().all(|b| b.is_ascii_digit()) {
+                u16::from_str_radix(s, 10).ok()
+            } else {
+                None
+            }
+        }
+
         fn as_num<C>(word: &ComplexWordKind<C>) -> Option<u16> {
             match *word {
-                Single(Simple(SimpleWordKind::Literal(ref s))) => u16::from_str_radix(s, 10).ok(),
+                Single(Simple(SimpleWordKind::Literal(ref s))) => parse_num(s),
                 Single(_) => None,
                 Concat(ref fragments) => {
                     let mut buf = String::new();
@@ -733,7 +742,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         }
                     }
 
-                    u16::from_str_radix(&buf, 10).ok()
+                    parse_num(&buf)
                 }
             }
         }
-- 
2.43.0


From c6a3ed63c0f347642d945ddb0f7426e355f68a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 06/18] fix: do not take an assigned value starting with # for
 a comment

---
 src/parse.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9891643..49c338f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -606,10 +606,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 if let Some(Name(var)) = self.iter.next() {
                     self.iter.next(); // Consume the =
 
-                    let value = if let Some(&Whitespace(_)) = self.iter.peek() {
-                        None
-                    } else {
-                        self.word()?
+                    let value = match self.iter.peek() {
+                        Some(&Whitespace(_)) => None,
+
+                        // Here the # is in the middle of a word (which starts with
+                        // the variable's name), thus it does not start a comment.
+                        Some(&Pound) => match self.word_fragments_raw(None)? {
+                            Some(w) => Some(self.builder.word(w)?),
+                            None => None,
+                        },
+
+                        _ => self.word()?,
                     };
                     vars.push(RedirectOrEnvVar::EnvVar(var, value));
 
@@ -1163,6 +1170,15 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             return Ok(None);
         }
 
+        self.word_fragments_raw(delim)
+    }
+
+    /// Parses the fragments of a word starting at the very next token,
+    /// which is taken as part of the word even if it is a `#`.
+    fn word_fragments_raw(
+        &mut self,
+        delim: Option<Token>,
+    ) -> ParseResult<Option<ComplexWordKind<B::Command>>, B::Error> {
         let mut words = Vec::new();
         loop {
             if delim.is_some() && self.iter.peek() == delim.as_ref() {
-- 
2.43.0


From 6ed11917eb0021486b40e945d61c524f6c94e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 07/18] fix: treat a quoted parenthesis as literal when looking
 for a closing delimiter

---
 src/parse/iter.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index e874b8d..87b8a80 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -451,6 +451,8 @@ pub struct Balanced<I> {
     skip_last_delimeter: bool,
     /// Makes the iterator *fused* by yielding None forever after we are done.
     done: bool,
+    /// Indicates if the last token was a `$` which introduces a `(`.
+    dollar_paren: bool,
     /// The current position of the iterator.
     pos: SourcePos,
 }
@@ -471,6 +473,7 @@ impl<I: PositionIterator> Balanced<I> {
             skip_last_delimeter: delim.is_some(),
             stack: delim.map_or(Vec::new(), |d| vec![d]),
             done: false,
+            dollar_paren: false,
             pos: iter.pos(),
             iter,
         }
@@ -555,7 +558,17 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             }
 
             Some(ParenOpen) => {
-                self.stack.push((ParenClose, cur_pos));
+                // Within double quotes (or within the word of a parameter substitution)
+                // a parenthesis is literal, unless it belongs to a `$(`.
+                let literal = match self.stack.last() {
+                    Some(&(DoubleQuote, _)) | Some(&(CurlyClose, _)) => !self.dollar_paren,
+                    _ => false,
+                };
+
+                self.dollar_paren = false;
+                if !literal {
+                    self.stack.push((ParenClose, cur_pos));
+                }
                 Some(Ok(ParenOpen))
             }
 
@@ -563,7 +576,7 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
                 match self.iter.peek() {
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
-                    Some(&ParenOpen) => {} // Already handled by paren case above
+                    Some(&ParenOpen) => self.dollar_paren = true, // Handled by paren case above
 
                     // We have nothing further to match
                     _ => {
-- 
2.43.0


From 5718d414961ea06cbc74ceb92ebe2427ebe6de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 08/18] fix: do not look for quotes in a comment which follows
 a heredoc operator

---
 src/parse.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 49c338f..74d168e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -999,6 +999,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // we feed it).
         let saved_pos = self.iter.pos();
         let mut saved_tokens = Vec::new();
+        let mut at_word_start = true;
         while self.iter.peek().is_some() {
             // Make sure we save all tokens until the next UNQUOTED newilne
             if let Some(&Newline) = self.iter.peek() {
@@ -1006,9 +1007,28 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 break;
             }
 
+            // Nothing is special within a comment, so it must not be
+            // searched for quotes (or other delimeters) that are never closed.
+            if at_word_start && Some(&Pound) == self.iter.peek() {
+                while let Some(t) = self.iter.peek() {
+                    if t == &Newline {
+                        break;
+                    }
+                    saved_tokens.push(self.iter.next().unwrap());
+                }
+                continue;
+            }
+
+            let start = saved_tokens.len();
             for t in self.iter.balanced() {
                 saved_tokens.push(try_map!(t));
             }
+
+            at_word_start = match &saved_tokens[start..] {
+                [Backslash, Newline] => true,
+                [t, ..] => t.is_word_delimiter(),
+                [] => false,
+            };
         }
 
         let heredoc_start_pos = self.iter.pos();
-- 
2.43.0


From a259e19c07571a2aa13647c459631fc91c6ef437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 09/18] fix: accept blanks and redirections after a subshell
 function body

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 74d168e..9537c40 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2325,7 +2325,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     None
                 } else {
                     // Case like `function foo (subshell)`
-                    Some(self.builder.subshell(subshell, Vec::new())?)
+                    let io = self.redirect_list()?;
+                    Some(self.builder.subshell(subshell, io)?)
                 }
             } else {
                 None
-- 
2.43.0


From e2dc5bcd35678d31cce11c8dc0fe26a1ebd82dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 10/18] fix: end a backtick substitution at its first unescaped
 backtick

---
 src/parse/iter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 87b8a80..ec727a9 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -524,8 +524,15 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             return ret;
         }
 
+        // A backtick substitution extends up to the first unescaped backtick (which
+        // was handled above), no matter what else (e.g. a lone quote within a comment)
+        // appears in it. Whatever it holds is checked when it is parsed on its own.
+        let in_backticks = matches!(self.stack.last(), Some(&(Backtick, _)));
+
         let cur_pos = self.iter.pos();
         let ret = match self.iter.next() {
+            Some(t) if in_backticks && t != Backslash => Some(Ok(t)),
+
             Some(Backslash) => {
                 // Make sure that we indicate our position as before the escaped token,
                 // and NOT as the underlying iterator's position, which will indicate the
-- 
2.43.0


From d80bdc1f5149b965884f58324f1bd3031364e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 11/18] fix: do not panic on a heredoc body which ends in a
 backslash

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9537c40..7ce32b8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1371,7 +1371,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         _ => false,
                     };
 
-                    if special || self.iter.peek() == delim_close.as_ref() {
+                    // NB: without a delimeter, running into EOF is not a match
+                    let is_delim = delim_close.is_some() && self.iter.peek() == delim_close.as_ref();
+
+                    if special || is_delim {
                         store!(SimpleWordKind::Escaped(
                             self.iter.next().unwrap().to_string()
                         ))
-- 
2.43.0


From 5000a98bbc527d34d01eae5706b717f73a6606fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 12/18] fix: name the place of a keyword, not of the blanks
 before it

The compound command methods took the position before skipping leading
blanks, so when called directly their errors pointed at the blanks.
---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 7ce32b8..e02c9f0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1771,6 +1771,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     /// reserved words. Each of the reserved words must be a literal token, and cannot be
     /// quoted or concatenated.
     pub fn do_group(&mut self) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[DO])
             .map_err(|_| self.make_unexpected_err())?;
@@ -1788,6 +1789,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn brace_group(&mut self) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
         // CurlyClose must be encountered as a stand alone word,
         // even though it is represented as its own token
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_token(&[CurlyOpen])?;
         let cmds = self.command_group(CommandGroupDelimiters {
@@ -1915,6 +1917,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn loop_command(
         &mut self,
     ) -> ParseResult<(builder::LoopKind, builder::GuardBodyPairGroup<B::Command>), B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         let keyword = self
             .reserved_word(&[WHILE, UNTIL])
@@ -1951,6 +1954,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     /// method returns the relevant parts of the `if` command, without constructing an
     /// AST node, it so that the caller can do so with redirections.
     pub fn if_command(&mut self) -> ParseResult<builder::IfFragments<B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[IF])
             .map_err(|_| self.make_unexpected_err())?;
@@ -2013,6 +2017,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn for_command(
         &mut self,
     ) -> ParseResult<builder::ForFragments<B::Word, B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[FOR])
             .map_err(|_| self.make_unexpected_err())?;
@@ -2111,6 +2116,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn case_command(
         &mut self,
     ) -> ParseResult<builder::CaseFragments<B::Word, B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
 
         macro_rules! missing_in {
-- 
2.43.0


From 58d45adef6455453328b7b6efdd5349f16dddfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 13/18] fix: leave the position at the end of a parsed heredoc
 body

Once the body's tokens were used up the position jumped back to where the
body began, so errors placed a missing keyword before its own command.
---
 src/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index e02c9f0..616b567 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1114,7 +1114,14 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let body = heredoc.into_iter().flat_map(|(t, _)| t).collect::<Vec<_>>();
             Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
         } else {
-            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_start_pos);
+            // Once all of its tokens are yielded we are at the end of the body
+            let heredoc_end_pos = heredoc.last().map_or(heredoc_start_pos, |(line, pos)| {
+                let mut end = *pos;
+                line.iter().for_each(|t| end.advance(t));
+                end
+            });
+
+            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_end_pos);
             while let Some((line, pos)) = heredoc.pop() {
                 tok_iter.buffer_tokens_to_yield_first(line, pos);
             }
-- 
2.43.0


From fa87f5e75af3653c44b799886e541d52b9ac7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 14/18] fix: keep the positions of tokens which are buffered
 for later

Tokens saved while looking for a heredoc body, and the lines of the body
itself, lost track of backslashes removed between them within backticks, so
errors pointed before the true place.
---
 src/parse.rs      |  74 ++++++++++++++++++++--------------
 src/parse/iter.rs | 100 +++++++++++++++++++++++++++++++---------------
 2 files changed, 111 insertions(+), 63 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 616b567..4e68453 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -10,7 +10,9 @@ use std::iter::empty as empty_iter;
 use std::mem;
 use std::str::FromStr;
 
-use self::iter::{PeekableIterator, PositionIterator, TokenIter, TokenIterWrapper, TokenIterator};
+use self::iter::{
+    PeekableIterator, PositionIterator, TokenBuffer, TokenIter, TokenIterWrapper, TokenIterator,
+};
 use crate::ast::builder::ComplexWordKind::{self, Concat, Single};
 use crate::ast::builder::WordKind::{self, DoubleQuoted, Simple, SingleQuoted};
 use crate::ast::builder::{self, Builder, SimpleWordKind};
@@ -997,13 +999,14 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // heredocs, especially if we want to keep the builder unaware of our
         // shenanigans (since it *could* be keeping some internal state of what
         // we feed it).
-        let saved_pos = self.iter.pos();
-        let mut saved_tokens = Vec::new();
+        let mut saved_tokens = TokenBuffer::new(self.iter.pos());
         let mut at_word_start = true;
         while self.iter.peek().is_some() {
+            let pos = self.iter.pos();
+
             // Make sure we save all tokens until the next UNQUOTED newilne
             if let Some(&Newline) = self.iter.peek() {
-                saved_tokens.push(self.iter.next().unwrap());
+                saved_tokens.push(self.iter.next().unwrap(), pos);
                 break;
             }
 
@@ -1014,28 +1017,38 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     if t == &Newline {
                         break;
                     }
-                    saved_tokens.push(self.iter.next().unwrap());
+                    let pos = self.iter.pos();
+                    saved_tokens.push(self.iter.next().unwrap(), pos);
                 }
                 continue;
             }
 
-            let start = saved_tokens.len();
-            for t in self.iter.balanced() {
-                saved_tokens.push(try_map!(t));
+            let mut found = Vec::new();
+            let mut balanced = self.iter.balanced();
+            loop {
+                let pos = balanced.pos();
+                match balanced.next() {
+                    Some(t) => found.push((try_map!(t), pos)),
+                    None => break,
+                }
             }
 
-            at_word_start = match &saved_tokens[start..] {
-                [Backslash, Newline] => true,
-                [t, ..] => t.is_word_delimiter(),
+            at_word_start = match found.as_slice() {
+                [(Backslash, _), (Newline, _)] => true,
+                [(t, _), ..] => t.is_word_delimiter(),
                 [] => false,
             };
+
+            for (t, pos) in found {
+                saved_tokens.push(t, pos);
+            }
         }
 
         let heredoc_start_pos = self.iter.pos();
         let mut heredoc = Vec::new();
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
-            let mut line = Vec::new();
+            let mut stripped_whitespace = None;
 
             // Only the tabs which lead the line are stripped
             if strip_tabs {
@@ -1045,7 +1058,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     line_start_pos.advance_tabs(num_tabs);
 
                     if !stripped.is_empty() {
-                        line.push(Whitespace(stripped.to_owned()));
+                        stripped_whitespace = Some(Whitespace(stripped.to_owned()));
                     }
 
                     true
@@ -1058,7 +1071,13 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 }
             }
 
+            let mut line = TokenBuffer::new(line_start_pos);
+            if let Some(w) = stripped_whitespace {
+                line.push(w, line_start_pos);
+            }
+
             'line: loop {
+                let pos = self.iter.pos();
                 let next = self.iter.next();
                 match next {
                     // If we haven't grabbed any input we must have hit EOF
@@ -1074,7 +1093,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         // slow to stringify each and every line (and alloc it in memory)
                         // when token length checks are available without converting to strings.
                         let mut line_len = 0;
-                        for t in &line {
+                        for t in line.tokens() {
                             line_len += t.len();
                             if line_len > delim_r_len {
                                 break;
@@ -1088,42 +1107,37 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         // of positions in the source, as we could have one or two byte Newlines,
                         // or two different tokens to deal with.
                         if line_len == delim_len || line_len == delim_r_len {
-                            let line_str = concat_tokens(&line);
+                            let line_str = line.tokens().map(Token::as_str).collect::<String>();
                             if line_str == delim || line_str == delim_r {
                                 break 'heredoc;
                             }
                         }
 
                         if next == Some(Newline) {
-                            line.push(Newline);
+                            line.push(Newline, pos);
                         }
                         break 'line;
                     }
 
-                    Some(t) => line.push(t),
+                    Some(t) => line.push(t, pos),
                 }
             }
 
-            heredoc.push((line, line_start_pos));
+            heredoc.push(line);
         }
 
-        self.iter
-            .buffer_tokens_to_yield_first(saved_tokens, saved_pos);
+        self.iter.buffer_tokens_to_yield_first(saved_tokens);
 
         let body = if quoted {
-            let body = heredoc.into_iter().flat_map(|(t, _)| t).collect::<Vec<_>>();
-            Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
+            let body = heredoc.iter().flat_map(TokenBuffer::tokens);
+            let body = body.map(Token::as_str).collect::<String>();
+            Single(Simple(SimpleWordKind::Literal(body)))
         } else {
             // Once all of its tokens are yielded we are at the end of the body
-            let heredoc_end_pos = heredoc.last().map_or(heredoc_start_pos, |(line, pos)| {
-                let mut end = *pos;
-                line.iter().for_each(|t| end.advance(t));
-                end
-            });
-
+            let heredoc_end_pos = heredoc.last().map_or(heredoc_start_pos, TokenBuffer::end);
             let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_end_pos);
-            while let Some((line, pos)) = heredoc.pop() {
-                tok_iter.buffer_tokens_to_yield_first(line, pos);
+            while let Some(line) = heredoc.pop() {
+                tok_iter.buffer_tokens_to_yield_first(line);
             }
 
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index ec727a9..a647f29 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -33,6 +33,58 @@ impl TokenOrPos {
     }
 }
 
+/// A buffer of consumed tokens which remembers where each of them was found, even
+/// if they are not adjacent in the source (e.g. because a \ was removed between them).
+#[derive(Debug)]
+pub struct TokenBuffer {
+    /// The tokens, and any changes of position between them.
+    tokens: Vec<TokenOrPos>,
+    /// The position of the first token.
+    start: SourcePos,
+    /// The position after the last token.
+    end: SourcePos,
+}
+
+impl TokenBuffer {
+    /// Creates a new buffer whose first token will appear at the provided position.
+    pub fn new(start: SourcePos) -> Self {
+        TokenBuffer {
+            tokens: Vec::new(),
+            start,
+            end: start,
+        }
+    }
+
+    /// Appends a token found at the provided position.
+    pub fn push(&mut self, tok: Token, pos: SourcePos) {
+        if self.end != pos {
+            self.tokens.push(TokenOrPos::Pos(pos));
+        }
+
+        self.end = pos;
+        self.end.advance(&tok);
+        self.tokens.push(TokenOrPos::Tok(tok));
+    }
+
+    /// Returns `true` if there are no tokens.
+    pub fn is_empty(&self) -> bool {
+        self.tokens.is_empty()
+    }
+
+    /// Returns the position after the last token.
+    pub fn end(&self) -> SourcePos {
+        self.end
+    }
+
+    /// Returns the buffered tokens in order.
+    pub fn tokens(&self) -> impl Iterator<Item = &Token> {
+        self.tokens.iter().filter_map(|t| match *t {
+            TokenOrPos::Tok(ref t) => Some(t),
+            TokenOrPos::Pos(_) => None,
+        })
+    }
+}
+
 /// An iterator that can track its internal position in the stream.
 pub trait PositionIterator: Iterator {
     /// Get the current position of the iterator.
@@ -277,13 +329,10 @@ impl<I: Iterator<Item = Token>> TokenIter<I> {
         self.updated_buffered_pos();
     }
 
-    /// Accepts a vector of tokens to be yielded completely before the inner
-    /// iterator is advanced further. The provided `buf_start` indicates
-    /// what the iterator's position should have been if we were to naturally
-    /// yield the provided buffer.
-    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<Token>, buf_start: SourcePos) {
-        let tokens = buf.into_iter().map(TokenOrPos::Tok).collect();
-        self.buffer_tokens_and_positions_to_yield_first(tokens, Some(buf_start));
+    /// Accepts a buffer of tokens to be yielded completely before the inner
+    /// iterator is advanced further, each of them at the position it was found.
+    pub fn buffer_tokens_to_yield_first(&mut self, buf: TokenBuffer) {
+        self.buffer_tokens_and_positions_to_yield_first(buf.tokens, Some(buf.start));
     }
 
     /// Collects all tokens yielded by `TokenIter::backticked_remove_backslashes`
@@ -407,14 +456,10 @@ impl<I: Iterator<Item = Token>> TokenIterWrapper<I> {
     }
 
     /// Delegates to `TokenIter::buffer_tokens_to_yield_first`.
-    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<Token>, buf_start: SourcePos) {
+    pub fn buffer_tokens_to_yield_first(&mut self, buf: TokenBuffer) {
         match *self {
-            TokenIterWrapper::Regular(ref mut inner) => {
-                inner.buffer_tokens_to_yield_first(buf, buf_start)
-            }
-            TokenIterWrapper::Buffered(ref mut inner) => {
-                inner.buffer_tokens_to_yield_first(buf, buf_start)
-            }
+            TokenIterWrapper::Regular(ref mut inner) => inner.buffer_tokens_to_yield_first(buf),
+            TokenIterWrapper::Buffered(ref mut inner) => inner.buffer_tokens_to_yield_first(buf),
         }
     }
 
@@ -655,45 +700,34 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
     fn create_token_iter(
         mut iter: Balanced<I>,
     ) -> Result<TokenIter<std_iter::Empty<Token>>, UnmatchedError> {
-        let mut all_chunks = Vec::new();
-        let mut chunk_start = iter.pos();
-        let mut chunk = Vec::new();
+        let mut buf = TokenBuffer::new(iter.pos());
 
         loop {
+            let pos = iter.pos();
             match iter.next() {
                 Some(Ok(Backslash)) => {
                     let next_pos = iter.pos();
                     match iter.next() {
                         Some(Ok(tok @ Dollar))
                         | Some(Ok(tok @ Backtick))
-                        | Some(Ok(tok @ Backslash)) => {
-                            all_chunks.push((chunk, chunk_start));
-                            chunk_start = next_pos;
-                            chunk = vec![tok];
-                        }
+                        | Some(Ok(tok @ Backslash)) => buf.push(tok, next_pos),
 
                         Some(tok) => {
-                            chunk.push(Backslash);
-                            chunk.push(tok?);
+                            buf.push(Backslash, pos);
+                            buf.push(tok?, next_pos);
                         }
 
-                        None => chunk.push(Backslash),
+                        None => buf.push(Backslash, pos),
                     }
                 }
 
-                Some(tok) => chunk.push(tok?),
+                Some(tok) => buf.push(tok?, pos),
                 None => break,
             }
         }
 
-        if !chunk.is_empty() {
-            all_chunks.push((chunk, chunk_start));
-        }
-
         let mut tok_iter = TokenIter::with_position(std_iter::empty(), iter.pos());
-        while let Some((chunk, chunk_end)) = all_chunks.pop() {
-            tok_iter.buffer_tokens_to_yield_first(chunk, chunk_end);
-        }
+        tok_iter.buffer_tokens_to_yield_first(buf);
         Ok(tok_iter)
     }
 }
-- 
2.43.0


From 212f9cb6602e48f775f2ad3a1558cbb572ab96e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 15/18] fix: count the held-back token in the lexer's size hint

---
 src/lexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index af7b2eb..83ad6a2 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -260,7 +260,12 @@ impl<I: Iterator<Item = char>> Iterator for Lexer<I> {
         // themselves for the worst possible case. A high estimate
         // is better than no estimate.
         let (_, hi) = self.inner.size_hint();
-        let low = if self.peeked.is_some() { 1 } else { 0 };
-        (low, hi)
+        // Tokens already recognized no longer count as characters to be read.
+        let held = match self.peeked {
+            None => 0,
+            Some(Escaped(Some(_))) => 2,
+            Some(_) => 1,
+        };
+        (held, hi.and_then(|hi| hi.checked_add(held)))
     }
 }
-- 
2.43.0


From 083e100cc32407d28c52fb515e379be0eda63cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:58 +0000
Subject: [PATCH 16/18] fix: parse -++var and +--var as a negated pre-increment

The second sign was always taken for a unary one, thus $((-++x)) (unlike
$((- ++x))) no longer incremented the variable.
---
 src/parse.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4e68453..1a33043 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2873,26 +2873,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             Bang  => { ast::Arithmetic::LogicalNot(Box::new(self.arith_unary_misc()?)) },
             Tilde => { ast::Arithmetic::BitwiseNot(Box::new(self.arith_unary_misc()?)) },
             Plus  => {
+                // Although we can optimize `+-expr` out, we'll let the AST builder handle
+                // optimizations, in case it is interested in such redundant situations.
+                // NB: it cannot be told from `+--var` by its first two tokens alone.
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Dash => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryPlus(Box::new(ast::Arithmetic::UnaryMinus(Box::new(next))))
-                    },
                     Plus => { ast::Arithmetic::PreIncr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryPlus(Box::new(self.arith_unary_misc()?)) }
                 })
             },
 
             Dash  => {
+                // As above, but with `-+expr` and `-++var`.
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Plus => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryMinus(Box::new(ast::Arithmetic::UnaryPlus(Box::new(next))))
-                    },
                     Dash => { ast::Arithmetic::PreDecr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryMinus(Box::new(self.arith_unary_misc()?)) }
                 })
-- 
2.43.0


From 66c147f651f9402c1413ab970777e92987fdc755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:22 +0000
Subject: [PATCH 17/18] fix: accept << followed by a dash in arithmetic

---
 src/parse.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1a33043..7017751 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2814,13 +2814,36 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         Ok(expr)
     }
 
-    arith_parse!(
-        /// Parses expressions such as `expr << expr` or `expr >> expr`.
-        fn arith_shift,
-        arith_add,
-        DLess  => ast::Arithmetic::ShiftLeft,
-        DGreat => ast::Arithmetic::ShiftRight
-    );
+    /// Parses expressions such as `expr << expr` or `expr >> expr`.
+    #[inline]
+    fn arith_shift(&mut self) -> ParseResult<DefaultArithmetic, B::Error> {
+        let mut expr = self.arith_add()?;
+        loop {
+            self.skip_whitespace();
+            let mut dash_pos = self.iter.pos();
+            let left = eat_maybe!(self, {
+                DLess => { true },
+                // `<<-` is no heredoc here, its dash belongs to the next expression
+                DLessDash => {
+                    dash_pos.advance(&DLess);
+                    let mut dash = TokenBuffer::new(dash_pos);
+                    dash.push(Dash, dash_pos);
+                    self.iter.buffer_tokens_to_yield_first(dash);
+                    true
+                },
+                DGreat => { false };
+                _ => { break },
+            });
+
+            let next = Box::new(self.arith_add()?);
+            expr = if left {
+                ast::Arithmetic::ShiftLeft(Box::new(expr), next)
+            } else {
+                ast::Arithmetic::ShiftRight(Box::new(expr), next)
+            };
+        }
+        Ok(expr)
+    }
 
     arith_parse!(
         /// Parses expressions such as `expr + expr` or `expr - expr`.
-- 
2.43.0


From acfafb5c7f1dab59e4058d0b9e91d4c6dfb05ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:45 +0000
Subject: [PATCH 18/18] fix: accept assignments and sequences between ? and :
 in arithmetic

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7017751..2fca715 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2713,7 +2713,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         self.skip_whitespace();
         eat_maybe!(self, {
             Question => {
-                let body = self.arith_ternary()?;
+                let body = self.arithmetic_substitution()?;
                 self.skip_whitespace();
                 eat!(self, { Colon => {} });
                 let els = self.arith_ternary()?;
-- 
2.43.0

