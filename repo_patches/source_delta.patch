From 74a23cbd6be2225c08b26da933633ab955d9a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:19 +0000
Subject: [PATCH 01/15] fix: scanner hung on an outdent to a level between two
 open levels

---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e6ef974..501447e 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -354,7 +354,8 @@ where
                             self.indentation.pop();
                             self.add_token(TokenType::Outdent);
                         }
-                        Ordering::Less => {}
+                        // There is no matching level.
+                        Ordering::Less => break,
                     }
                 }
                 if !found && self.bol_spaces > 0 {
-- 
2.43.0


From 8f8daa01f4993522f75690c9239014b02f75ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:20 +0000
Subject: [PATCH 02/15] fix: CRLF line endings were rejected as unexpected
 tokens and did not end comments

---
 src/scanner.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 501447e..508ade9 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,7 +243,7 @@ where
                         // Optional carriage return.
                         self.matches("\r");
 
-                        if self.matches("\n") {
+                        if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
@@ -267,7 +267,9 @@ where
                         // Ignore this character for the most part.
                         is_whitespace = true;
                     }
-                    "\n" => {
+                    // Note: a carriage return followed by a newline is a
+                    // single grapheme cluster.
+                    "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
                         if !self.is_bol
@@ -444,7 +446,7 @@ where
             match self.grapheme_indices.peek() {
                 None => break,
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         // Keep the newline next.
                         break;
                     }
@@ -462,7 +464,7 @@ where
             match self.grapheme_indices.peek() {
                 None => (),
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         self.line = self.line.saturating_add(1);
                         self.column = 0;
                     }
@@ -608,6 +610,10 @@ where
     }
 }
 
+fn is_newline(grapheme: &str) -> bool {
+    matches!(grapheme, "\n" | "\r\n")
+}
+
 fn is_digit(grapheme: &str) -> bool {
     // Note: built-in is_numeric() uses a more complicated unicode definition of
     // numeric.
-- 
2.43.0


From 5ba8b105fe69929171c62b1c9ad7d7838ed06fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:37 +0000
Subject: [PATCH 03/15] fix: the indentation of a line holding only a comment
 opened and closed blocks

---
 src/scanner.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 508ade9..7d8f09a 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -223,12 +223,13 @@ where
                     }
                     "/" => {
                         let was_bol = self.is_bol;
-                        self.bol_indentation_tokens();
                         if self.matches("/") {
-                            // A comment until the end of the line.
+                            // A comment until the end of the line.  It doesn't
+                            // affect indentation.
                             self.advance_to_eol();
                             self.only_comment_on_line = was_bol;
                         } else {
+                            self.bol_indentation_tokens();
                             self.add_token(Slash);
                             following_line_continuation = true;
                         }
-- 
2.43.0


From 46d4e66652009b84261b95b98ce6cae01ba66388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:37 +0000
Subject: [PATCH 04/15] fix: a space or comment after a trailing operator
 prevented line continuation

---
 src/scanner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 7d8f09a..9c07ad1 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -228,6 +228,7 @@ where
                             // affect indentation.
                             self.advance_to_eol();
                             self.only_comment_on_line = was_bol;
+                            is_whitespace = true;
                         } else {
                             self.bol_indentation_tokens();
                             self.add_token(Slash);
@@ -304,7 +305,12 @@ where
                         }
                     }
                 }
-                self.following_line_continuation = following_line_continuation;
+                // Trailing whitespace and comments don't affect whether the line
+                // continues.
+                if !is_whitespace {
+                    self.following_line_continuation =
+                        following_line_continuation;
+                }
                 self.is_abutting = !is_whitespace;
             }
         }
-- 
2.43.0


From 23f5c875ce129c3d88aa009926c7b34ec3f34f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:38 +0000
Subject: [PATCH 05/15] fix: a parenthesis starting the line after a backslash
 counted as abutting

---
 src/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index 9c07ad1..9125aec 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -248,6 +248,7 @@ where
                         if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
+                            is_whitespace = true;
                         } else {
                             self.error(ParseErrorCause::new(
                                 SourceLoc::new(self.line, self.start_column),
-- 
2.43.0


From a804315f62f545d3ef8e13120bed674eba3ec84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:38 +0000
Subject: [PATCH 06/15] fix: scanner errors were reported one column after the
 offending character

---
 src/scanner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 9125aec..b81754e 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -258,7 +258,7 @@ where
                     }
                     "\t" => {
                         is_whitespace = true;
-                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.column), "Illegal tab character; all whitespace must be spaces"));
+                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.start_column), "Illegal tab character; all whitespace must be spaces"));
                     }
                     " " => {
                         is_whitespace = true;
@@ -297,7 +297,7 @@ where
                             self.scan_identifier();
                         } else {
                             self.error(ParseErrorCause::new(
-                                SourceLoc::new(self.line, self.column),
+                                SourceLoc::new(self.line, self.start_column),
                                 &format!(
                                     "Unexpected token: {}",
                                     grapheme_cluster
@@ -370,7 +370,7 @@ where
                 }
                 if !found && self.bol_spaces > 0 {
                     self.error(ParseErrorCause::new(
-                        SourceLoc::new(self.line, self.column),
+                        SourceLoc::new(self.line, self.start_column),
                         "Outdent does not match any previous indentation level",
                     ));
                 }
-- 
2.43.0


From f30b13a3202d97aa93e5f7fc2c0a6a89c266b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 07/15] fix: parsing an empty expression underflowed the token
 index

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 43f655f..e3f1034 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1140,7 +1140,7 @@ impl<'a> Parser<'a> {
     }
 
     fn previous(&self) -> Option<&Token<'a>> {
-        self.tokens.get(self.current - 1)
+        self.tokens.get(self.current.checked_sub(1)?)
     }
 
     fn previous_source_loc(&self) -> SourceLoc {
-- 
2.43.0


From 1c419aded4410228229939ac6f4fe9acce174303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:07 +0000
Subject: [PATCH 08/15] fix: a malformed loop body left the parser inside the
 loop, hiding later errors

---
 src/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e3f1034..0f7d3e2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -486,10 +486,9 @@ impl<'a> Parser<'a> {
         let body_result = if self.check(TokenType::Terminator)
             || self.check(TokenType::LeftBrace)
         {
-            let end_block = self.consume_begin_block(
-                "Expect '{' or indent before loop body.",
-            )?;
-            self.finish_block(end_block).map(Stmt::Block)
+            self.consume_begin_block("Expect '{' or indent before loop body.")
+                .and_then(|end_block| self.finish_block(end_block))
+                .map(Stmt::Block)
         } else {
             self.statement()
         };
-- 
2.43.0


From 099e4cf32c3d8ce08c02f1a78a38f94da3656233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:08 +0000
Subject: [PATCH 09/15] fix: break and continue were accepted in a function
 nested in a loop

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0f7d3e2..ea87a63 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -227,7 +227,11 @@ impl<'a> Parser<'a> {
         let end_block = self.consume_begin_block(
             "Expect '{' or indent before function body.",
         )?;
-        let body = self.finish_block(end_block)?;
+        // Loops around the function don't extend into its body.
+        let enclosing_loops = std::mem::take(&mut self.in_loops);
+        let body_result = self.finish_block(end_block);
+        self.in_loops = enclosing_loops;
+        let body = body_result?;
 
         let fun_def = FunctionDefinition::new(
             parameters,
-- 
2.43.0


From aa89d386abef28816f4801fae0b47ac9b9e45bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:08 +0000
Subject: [PATCH 10/15] fix: error recovery skipped the keyword of the
 statement it resumed at

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ea87a63..c96558d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1290,7 +1290,7 @@ impl<'a> Parser<'a> {
         self.advance();
 
         while !self.is_at_end() {
-            if let Some(token) = self.previous() {
+            if let Some(token) = self.peek() {
                 match token.token_type {
                     TokenType::Class
                     | TokenType::Fun
-- 
2.43.0


From fb9a23f5c76134bab12e89d8ba76718d4b333d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:09 +0000
Subject: [PATCH 11/15] fix: an indented block after else was rejected

---
 src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c96558d..121367a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -414,7 +414,17 @@ impl<'a> Parser<'a> {
         };
 
         let else_stmt = if self.match_token(TokenType::Else) {
-            Some(Box::new(self.statement()?))
+            let stmt = if self.check(TokenType::Terminator)
+                || self.check(TokenType::LeftBrace)
+            {
+                let end_block = self.consume_begin_block(
+                    "Expect '{' or indent before else body.",
+                )?;
+                self.finish_block(end_block).map(Stmt::Block)?
+            } else {
+                self.statement()?
+            };
+            Some(Box::new(stmt))
         } else {
             None
         };
-- 
2.43.0


From 22748585137ba5f3c8f790742ff816c7c9691b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:09 +0000
Subject: [PATCH 12/15] fix: the 257th variable of a scope shared a slot with
 the first

---
 src/environment.rs | 1 +
 src/resolver.rs    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/environment.rs b/src/environment.rs
index 2594867..8b6e566 100644
--- a/src/environment.rs
+++ b/src/environment.rs
@@ -3,6 +3,7 @@ use serde;
 
 pub const VAR_LOC_MAX_DISTANCE: u16 = u16::MAX;
 pub const VAR_LOC_MAX_DISTANCE_USIZE: usize = VAR_LOC_MAX_DISTANCE as usize;
+pub const SLOT_INDEX_MAX_USIZE: usize = u8::MAX as usize;
 
 // When you declare a variable, you need to know where in the scope it is stored
 // in memory.  We currently use a slot index since a scope is implemented with
diff --git a/src/resolver.rs b/src/resolver.rs
index 1cef972..72f5b75 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -619,7 +619,7 @@ fn ensure_scope_index_limit(
     identifier: &str,
     loc: &SourceLoc,
 ) -> Result<(), ParseErrorCause> {
-    if new_scope_len > VAR_LOC_MAX_DISTANCE_USIZE {
+    if new_scope_len > SLOT_INDEX_MAX_USIZE {
         Err(ParseErrorCause::new_with_location(
             *loc,
             identifier,
-- 
2.43.0


From 21cb755c61cfb3f8c177460d860e76d23718151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:10 +0000
Subject: [PATCH 13/15] fix: a global with an invalid initializer was
 unreadable on later REPL lines

---
 src/resolver.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 72f5b75..34aba00 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -188,10 +188,11 @@ impl Resolver {
             }
             Stmt::Var(identifier, slot_index_cell, expr, loc) => {
                 self.declare(identifier, slot_index_cell, loc)?;
-                self.resolve_expression(expr)?;
+                let result = self.resolve_expression(expr);
+                // Even if the initializer is invalid, we're past it now.
                 self.define(identifier, loc)?;
 
-                Ok(())
+                result
             }
             Stmt::While(condition, body) => {
                 self.resolve_expression(condition)?;
-- 
2.43.0


From d6cbd5966a71fe05ecac4c706b02dbceecd7319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:10 +0000
Subject: [PATCH 14/15] fix: the REPL printed its prompt forever at the end of
 input

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6f513dd..b690d56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,8 @@ fn run_repl() {
 
         let mut input = String::new();
         match stdin.lock().read_line(&mut input) {
+            // End of input.
+            Ok(0) => break,
             Ok(_) => {
                 let result = run(&mut resolver, input, true);
                 print_result(&result, true);
-- 
2.43.0


From d365e55845dbf2429c5a31cefb26760c169cd0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:21 +0000
Subject: [PATCH 15/15] fix: the end of input was reported one column short on
 lines longer than the column counter

---
 src/scanner.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b81754e..5974a94 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -107,7 +107,7 @@ where
     }
 
     fn close_all_blocks(&mut self) {
-        self.start_column = self.column.saturating_sub(1);
+        self.start_column = self.column;
         for _ in 0..self.indentation.len() {
             self.add_token(TokenType::Outdent);
         }
@@ -433,8 +433,6 @@ where
 
     // Advance the grapheme cluster iterator.
     fn advance(&mut self) -> Option<(usize, &'g str)> {
-        self.column = self.column.saturating_add(1);
-
         match self.grapheme_indices.next() {
             None => {
                 self.eof = true;
@@ -442,6 +440,7 @@ where
                 None
             }
             Some((i, cluster)) => {
+                self.column = self.column.saturating_add(1);
                 self.current = i;
 
                 Some((i, cluster))
@@ -483,9 +482,8 @@ where
 
         // Unterminated string.
         if self.is_at_end() {
-            let column = self.column.saturating_sub(1);
             self.error(ParseErrorCause::new(
-                SourceLoc::new(self.line, column),
+                SourceLoc::new(self.line, self.column),
                 "Unterminated string.",
             ));
             return;
-- 
2.43.0

