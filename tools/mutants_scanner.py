S = 'src/scanner.rs'
BOL = "        if !self.is_bol {\n            return;\n        }\n"
EDITS = [
    # --- bugs
    ('kw-missing', [(S, 'm.insert("and", And);', 'm.insert("and", Or);')], 'L01'),
    ('ge-single', [(S, 'self.add_token(GreaterEqual);', 'self.add_token(Greater);')], 'L01'),
    ('semi-colon', [(S, 'self.add_token(Semicolon);', 'self.add_token(Colon);')], 'L01'),
    ('close-one-less', [(S, 'for _ in 0..self.indentation.len() {', 'for _ in 1..self.indentation.len() {')], 'L02'),
    ('close-max-8', [(S, 'for _ in 0..self.indentation.len() {', 'for _ in 0..self.indentation.len().min(8) {')], 'L02'),
    ('outdent-once', [(S, "                            self.indentation.pop();\n                            self.add_token(TokenType::Outdent);", "                            self.indentation.pop();\n                            if !found { self.add_token(TokenType::Outdent); }\n                            if self.indentation.len() > 4 { found = true; }")], 'L02'),
    ('eof-not-last', [(S, "        self.close_all_blocks();\n        self.add_token(TokenType::Eof);", "        self.add_token(TokenType::Eof);\n        self.close_all_blocks();")], 'L02'),
    ('outdent-eq-break', [(S, "if !found && self.bol_spaces > 0 {", "if !found && self.bol_spaces > 0 && self.indentation.len() < 3 {")], 'L03'),
    ('comment-line-spaces', [(S, "self.bol_spaces = 0;\n        self.is_bol", "if !self.only_comment_on_line { self.bol_spaces = 0; }\n        self.is_bol")], 'L05'),
    ('continuation-indent', [(S, "if !self.is_line_continuation {\n                    self.add_token(TokenType::Indent);\n                    self.indentation.push(self.bol_spaces);\n                }", "if !self.is_line_continuation {\n                    self.add_token(TokenType::Indent);\n                }\n                self.indentation.push(self.bol_spaces);")], 'L03'),
    ('blank-resets-continuation', [(S, "        if !line_was_blank {\n            self.is_line", "        {\n            self.is_line")], 'L04'),
    ('comma-no-continue', [(S, "self.add_token(Comma);\n                        following_line_continuation = true;", "self.add_token(Comma);")], 'L04'),
    ('bang-continue', [(S, "self.add_token(Bang);\n                        }", "self.add_token(Bang);\n                        }\n                        following_line_continuation = true;")], 'L04'),
    ('backslash-no-reset', [(S, "self.reset_line();\n                            self.is_line_continuation = true;", "self.reset_line();")], 'L04'),
    ('comment-clears-continuation', [(S, "self.advance_to_eol();\n", "self.advance_to_eol();\n                            self.following_line_continuation = false;\n")], 'L05'),
    ('comment-bol', [(S, "self.only_comment_on_line = was_bol;", "self.only_comment_on_line = was_bol || self.bol_spaces > 0;")], 'L05'),
    ('comment-eats-newline', [(S, "if is_newline(grapheme_cluster) {\n                        // Keep", "if grapheme_cluster == &\"\\n\" {\n                        // Keep")], 'L06'),
    ('crlf-string', [(S, "                    if is_newline(grapheme_cluster) {\n                        self.line =", "                    if *grapheme_cluster == \"\\n\" {\n                        self.line =")], 'L06'),
    ('crlf-continued', [(S, 'if self.matches("\\n") || self.matches("\\r\\n") {', 'if self.matches("\\n") {')], 'L06'),
    ('string-end-line', [(S, "self.add_string_literal_token(value, start_line);", "self.add_string_literal_token(value, self.line);")], 'L07'),
    ('string-col', [(S, "                        self.column = 0;", "                        self.column = 1;")], 'L07'),
    ('col-wrap', [(S, "self.column = self.column.saturating_add(1);", "self.column = self.column.wrapping_add(1);")], 'L07'),
    ('err-col', [(S, "SourceLoc::new(self.line, self.start_column),\n                                &format!(", "SourceLoc::new(self.line, self.column),\n                                &format!(")], 'L07'),
    ('col-bytes', [(S, "self.column = self.column.saturating_add(1);", "self.column = self.column.saturating_add(cluster.len().min(2) as u16);")], 'L07'),
    ('string-trim', [(S, "let value = &self.source[start_index..self.current];", "let value = self.source[start_index..self.current].trim_end_matches('\\r');")], 'L08'),
    ('num-two-fractions', [(S, "        if self.is_match(\".\") {\n            if let", "        while self.is_match(\".\") {\n            if let")], 'L08'),
    ('ident-digits', [(S, "        Some(c) => c.is_alphanumeric() || c == '_',", "        Some(c) => c.is_alphabetic() || c.is_ascii_digit() || c == '_',")], 'L08'),
    ('dot-always', [(S, "                if is_digit(c) {\n                    // Consume", "                if is_digit(c) || c == \"e\" {\n                    // Consume")], 'L08'),
    ('tab-no-error-bol', [(S, 'is_whitespace = true;\n                        self.error(', 'is_whitespace = true;\n                        if !self.is_bol { return; }\n                        self.error(')], 'L09'),
    ('tokens-despite-error', [(S, "if errors.is_empty() {", "if errors.len() < 2 && tokens.len() > 3 {")], 'L09'),
    ('err-dup', [(S, "self.errors.push(error);", "self.errors.push(error.clone()); if self.errors.len() == 7 { self.errors.push(error); }")], 'L09'),
    ('err-order', [(S, "self.errors.push(error);", "self.errors.insert(0, error);")], 'L09'),
    ('abut-newline', [(S, "self.is_abutting = !is_whitespace;", "self.is_abutting = !is_whitespace || (self.is_abutting && self.is_line_continuation);")], 'L10'),
    ('abut-comment', [(S, "self.only_comment_on_line = was_bol;\n                            is_whitespace = true;", "self.only_comment_on_line = was_bol;\n                            is_whitespace = self.is_bol;")], 'L10'),
    ('bs-no-space', [(S, 'while self.matches(" ") {}', 'self.matches(" ");')], 'L04'),
    # --- refactorings
    ('r-helper', [(S, "    fn reset_line(&mut self) {", "    fn continues(&mut self, t: TokenType) -> bool {\n        self.bol_indentation_tokens();\n        self.add_token(t);\n        true\n    }\n\n    fn reset_line(&mut self) {"),
                  (S, "                        self.bol_indentation_tokens();\n                        self.add_token(Plus);\n                        following_line_continuation = true;", "                        following_line_continuation = self.continues(Plus);")], None),
    ('r-while-some', [(S, "        loop {\n            match self.grapheme_indices.peek() {\n                None => break,\n                Some((_, grapheme_cluster)) => {\n                    if !is_alphanumeric(grapheme_cluster) {\n                        break;\n                    }\n                }\n            };\n            self.advance();\n        }", "        while let Some((_, g)) = self.grapheme_indices.peek() {\n            if !is_alphanumeric(g) {\n                break;\n            }\n            self.advance();\n        }")], None),
    ('r-close-while', [(S, "        for _ in 0..self.indentation.len() {\n            self.add_token(TokenType::Outdent);\n        }", "        while let Some(_) = self.indentation.pop() {\n            self.add_token(TokenType::Outdent);\n        }")], None),
    ('r-cmp-if', [(S, "        if self.errors.is_empty()", "        if self.errors.is_empty()")] if False else [(S, "        if errors.is_empty() {\n            Ok(tokens)\n        } else {\n            Err(ParseError::new(errors))\n        }", "        if errors.len() > 0 {\n            return Err(ParseError::new(errors));\n        }\n        Ok(tokens)")], None),
    ('r-push-first', [(S, "self.add_token(TokenType::Indent);\n                    self.indentation.push(self.bol_spaces);", "self.indentation.push(self.bol_spaces);\n                    self.add_token(TokenType::Indent);")], None),
    ('r-is-digit', [(S, """    matches!(
        grapheme,
        "0" | "1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9"
    )""", """    let mut cs = grapheme.chars();
    match (cs.next(), cs.next()) {
        (Some(c), None) => c.is_ascii_digit(),
        _ => false,
    }""")], None),
    ('r-early-bol', [(S, BOL, ""), (S, "    fn bol_indentation_tokens(&mut self) {", "    fn bol_indentation_tokens(&mut self) {\n        if self.is_bol {\n            self.bol();\n        }\n    }\n\n    fn bol(&mut self) {")], None),
    ('r-if-chain', [(S, "        match self.bol_spaces.cmp(&last_indentation) {\n            Ordering::Equal => {}\n            Ordering::Greater => {", "        let ord = self.bol_spaces.cmp(&last_indentation);\n        match ord {\n            Ordering::Equal => (),\n            Ordering::Greater => {")], None),
    ('r-outdent-loop', [(S, """                while !self.indentation.is_empty() {
                    let amount = *self.indentation.last().unwrap();
                    match amount.cmp(&self.bol_spaces) {
                        Ordering::Equal => {
                            found = true;
                            break;
                        }
                        Ordering::Greater => {
                            self.indentation.pop();
                            self.add_token(TokenType::Outdent);
                        }
                        // There is no matching level.
                        Ordering::Less => break,
                    }
                }""", """                while let Some(&amount) = self.indentation.last() {
                    if amount <= self.bol_spaces {
                        found = amount == self.bol_spaces;
                        break;
                    }
                    self.indentation.pop();
                    self.add_token(TokenType::Outdent);
                }""")], None),
    ('r-newtype-order', [(S, "                        is_whitespace = true;\n                        let continue_line = self.following_line_continuation;\n                        if !self.is_bol\n                            && !continue_line", "                        let continue_line = self.following_line_continuation;\n                        is_whitespace = true;\n                        if !continue_line\n                            && !self.is_bol")], None),
    ('r-lexeme', [(S, "    fn add_token(&mut self, token_type: TokenType) {\n        let text = &self.source[self.start..self.peek_index()];", "    fn lexeme(&mut self) -> &'source str {\n        let end = self.peek_index();\n        &self.source[self.start..end]\n    }\n\n    fn add_token(&mut self, token_type: TokenType) {\n        let text = self.lexeme();")], None),
    ('r-string-col', [(S, "        while !self.is_match(\"\\\"\") && !self.is_at_end() {\n            match self.grapheme_indices.peek() {\n                None => (),\n                Some((_, grapheme_cluster)) => {\n                    if is_newline(grapheme_cluster) {\n                        self.line = self.line.saturating_add(1);\n                        self.column = 0;\n                    }\n                }\n            };\n            self.advance();\n        }", "        loop {\n            if self.is_at_end() || self.is_match(\"\\\"\") {\n                break;\n            }\n            let newline = match self.grapheme_indices.peek() {\n                Some((_, g)) => is_newline(g),\n                None => false,\n            };\n            if newline {\n                self.line = self.line.saturating_add(1);\n                self.column = 0;\n            }\n            self.advance();\n        }")], None),
    ('r-err-helper', [(S, "    fn error(&mut self, error: ParseErrorCause) {", "    fn error_here(&mut self, m: &str) {\n        let loc = SourceLoc::new(self.line, self.start_column);\n        self.error(ParseErrorCause::new(loc, m));\n    }\n\n    fn error(&mut self, error: ParseErrorCause) {"),
                      (S, "self.error(ParseErrorCause::new(\n                                SourceLoc::new(self.line, self.start_column),\n                                \"Unexpected character: '\\\\'\",\n                            ));", "self.error_here(\"Unexpected character: '\\\\'\");")], None),
    ('r-stop-after-error', [(S, "    fn add_token(&mut self, token_type: TokenType) {\n", "    fn add_token(&mut self, token_type: TokenType) {\n        if !self.errors.is_empty() {\n            return;\n        }\n")], None),
]
