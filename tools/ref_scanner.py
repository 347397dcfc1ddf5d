"""Edits of src/scanner.rs that keep its behaviour: the checks must stay quiet (see mut.py)."""
S = 'src/scanner.rs'


def cut(a, b):
    s = open('/repo/' + S).read()
    i = s.index(a)
    return s[i:s.index(b, i)]


BOL = cut('    fn bol_indentation_tokens(', '    // Conditionally advance if')
MATCHES = cut('    fn matches(', '    fn peek_index(')
NEXTG = cut('    fn peek_next_grapheme(', '    fn is_match(')
ADV = cut('    fn advance(', '    fn advance_to_eol(')
EOL = cut('    fn advance_to_eol(', '    fn scan_string(')
STR = cut('    fn scan_string(', '    fn scan_number(')
NUM = cut('    fn scan_number(', '    fn scan_identifier(')
ID = cut('    fn scan_identifier(', '    fn is_at_end(')
ADDS = cut('    // Add a token to the output.', '}\n\nfn is_newline')
SCAN = cut('    pub fn scan_tokens(', '    fn close_all_blocks(')
RESET = cut('    fn reset_line(', '    // Call this when a new')
NL = cut('                    "\\n" | "\\r\\n" => {', '                    "\\"" => {')
SLASH = cut('                    "/" => {', '                    "\\\\" => {')
BACK = cut('                    "\\\\" => {', '                    "\\t" => {')
DEF = cut('                    _ => {\n                        self.bol', '                // Trailing whitespace and comments')
DIG = cut('fn is_digit(', 'fn is_alphabetic(')
ALPHA = cut('fn is_alphabetic(', 'fn is_alphanumeric(')
KW = cut('lazy_static! {', '#[derive(Clone)]')
CLOSE = cut('    fn close_all_blocks(', '    fn scan_token(')

EDITS = [
    ('next-if', [(S, MATCHES, '''    fn matches(&mut self, expected: &str) -> bool {
        if self.is_match(expected) {
            self.advance();
            true
        } else {
            false
        }
    }

''')], None),
    ('matches-early', [(S, MATCHES, '''    fn matches(&mut self, expected: &str) -> bool {
        let found = !self.is_at_end() && self.is_match(expected);
        if found {
            self.advance();
        }
        found
    }

''')], None),
    ('peek-next-nth', [(S, NEXTG, '''    fn peek_next_grapheme(&mut self) -> Option<&'g str> {
        let mut ahead = self.grapheme_indices.clone();
        ahead.next()?;
        ahead.next().map(|(_, cluster)| cluster)
    }

''')], None),
    ('peek-index-map', [(S, '''        match self.grapheme_indices.peek() {
            None => self.source.len(),
            Some((i, _)) => *i,
        }
''', '''        let end = self.source.len();
        self.grapheme_indices.peek().map_or(end, |(i, _)| *i)
''')], None),
    ('is-match-closure', [(S, '''        match self.grapheme_indices.peek() {
            None => false,
            Some((_, grapheme_cluster)) => *grapheme_cluster == expected,
        }
''', '''        self.grapheme_indices
            .peek()
            .map(|(_, cluster)| *cluster == expected)
            .unwrap_or(false)
''')], None),
    ('advance-if-let', [(S, ADV, '''    fn advance(&mut self) -> Option<(usize, &'g str)> {
        let next = self.grapheme_indices.next();
        if let Some((i, _)) = next {
            self.column = self.column.saturating_add(1);
            self.current = i;
        } else {
            self.eof = true;
        }
        next
    }

''')], None),
    ('advance-question', [(S, ADV, '''    fn advance(&mut self) -> Option<(usize, &'g str)> {
        let next = self.grapheme_indices.next();
        self.eof = next.is_none();
        let (i, cluster) = next?;
        self.current = i;
        self.column = self.column.saturating_add(1);
        Some((i, cluster))
    }

''')], None),
    ('eol-while-let', [(S, EOL, '''    fn advance_to_eol(&mut self) {
        while let Some((_, cluster)) = self.grapheme_indices.peek() {
            if is_newline(cluster) {
                return;
            }
            self.advance();
        }
    }

''')], None),
    ('eol-helper', [(S, EOL, '''    fn advance_to_eol(&mut self) {
        self.advance_while(|cluster| !is_newline(cluster));
    }

    fn advance_while(&mut self, accept: impl Fn(&str) -> bool) {
        loop {
            match self.grapheme_indices.peek() {
                Some((_, cluster)) if accept(cluster) => (),
                _ => break,
            }
            self.advance();
        }
    }

'''), (S, NUM, '''    fn scan_number(&mut self) {
        self.advance_while(is_digit);

        // Look for a fractional part.
        if self.is_match(".") {
            if self.peek_next_grapheme().map_or(false, is_digit) {
                self.advance();
            }
            self.advance_while(is_digit);
        }

        let value = &self.source[self.start..self.peek_index()];
        let number: f64 = value.parse().unwrap_or_else(|_| {
            panic!("Unable to parse string as f64: {}", value)
        });
        self.add_number_literal_token(number);
    }

'''), (S, ID, '''    fn scan_identifier(&mut self) {
        self.advance_while(is_alphanumeric);

        let text = &self.source[self.start..self.peek_index()];
        let token_type =
            KEYWORDS.get(text).copied().unwrap_or(TokenType::Identifier);
        self.add_token(token_type);
    }

''')], None),
    ('number-if-fraction', [(S, NUM, NUM.replace('''            if let Some(c) = self.peek_next_grapheme() {
                if is_digit(c) {
                    // Consume the dot.
                    self.advance();
                }
            }

            loop {
                match self.grapheme_indices.peek() {
                    None => break,
                    Some((_, grapheme_cluster)) => {
                        if !is_digit(grapheme_cluster) {
                            break;
                        }
                    }
                };
                self.advance();
            }
''', '''            let has_fraction = match self.peek_next_grapheme() {
                Some(c) => is_digit(c),
                None => false,
            };
            if has_fraction {
                // The dot and the digits.
                self.advance();
                self.digits();
            }
''') + '''    fn digits(&mut self) {
        while let Some((_, cluster)) = self.grapheme_indices.peek() {
            if !is_digit(cluster) {
                break;
            }
            self.advance();
        }
    }

''')], None),
    ('number-expect', [(S, '''        let number: f64 = value.parse().unwrap_or_else(|_| {
            panic!("Unable to parse string as f64: {}", value)
        });
        self.add_number_literal_token(number);
''', '''        let number = value.parse::<f64>().expect("digits make a number");
        self.add_number_literal_token(number);
''')], None),
    ('keyword-if-let', [(S, '''        let token_type = match KEYWORDS.get(text) {
            None => TokenType::Identifier,
            Some(token_type) => *token_type,
        };

        self.add_token(token_type);
''', '''        if let Some(keyword) = KEYWORDS.get(text) {
            self.add_token(*keyword);
        } else {
            self.add_token(TokenType::Identifier);
        }
''')], None),
    ('keyword-match', [(S, KW, '''fn keyword(text: &str) -> Option<TokenType> {
    use crate::token::TokenType::*;
    let token_type = match text {
        "and" => And,
        "break" => Break,
        "class" => Class,
        "continue" => Continue,
        "else" => Else,
        "false" => False,
        "for" => For,
        "fun" => Fun,
        "if" => If,
        "nil" => Nil,
        "or" => Or,
        "print" => Print,
        "return" => Return,
        "super" => Super,
        "this" => This,
        "true" => True,
        "var" => Var,
        "while" => While,
        _ => return None,
    };
    Some(token_type)
}

'''), (S, '''        let token_type = match KEYWORDS.get(text) {
            None => TokenType::Identifier,
            Some(token_type) => *token_type,
        };
''', '''        let token_type = keyword(text).unwrap_or(TokenType::Identifier);
'''), (S, 'use std::collections::HashMap;\n', ''), (S, 'use lazy_static::lazy_static;\n', '')], None),
    ('keyword-array', [(S, '''        let mut m = HashMap::new();
        use crate::token::TokenType::*;
        m.insert("and", And);
        m.insert("break", Break);
        m.insert("class", Class);
''', '''        use crate::token::TokenType::*;
        let mut m = HashMap::from([
            ("and", And),
            ("break", Break),
            ("class", Class),
        ]);
''')], None),
    ('string-while-let', [(S, STR, '''    fn scan_string(&mut self) {
        let start_index = self.peek_index();
        let start_line = self.line;

        loop {
            match self.grapheme_indices.peek() {
                None => {
                    self.advance();
                    self.error(ParseErrorCause::new(
                        SourceLoc::new(self.line, self.column),
                        "Unterminated string.",
                    ));
                    return;
                }
                Some((_, "\\"")) => break,
                Some((_, cluster)) => {
                    if is_newline(cluster) {
                        self.line = self.line.saturating_add(1);
                        self.column = 0;
                    }
                    self.advance();
                }
            }
        }

        // The closing quote.
        self.advance();

        // Trim the surrounding quotes.
        let value = &self.source[start_index..self.current];
        self.add_string_literal_token(value, start_line);
    }

''')], None),
    ('string-helper', [(S, STR, STR.replace(cut('            match self.grapheme_indices.peek() {\n                None => (),\n                Some((_, grapheme_cluster)) => {\n                    if is_newline', '            self.advance();\n        }\n\n        // Unterminated'), '''            self.count_line();
''') + '''    fn count_line(&mut self) {
        let at_newline =
            matches!(self.grapheme_indices.peek(), Some((_, c)) if is_newline(c));
        if at_newline {
            self.line = self.line.saturating_add(1);
            self.column = 0;
        }
    }

''')], None),
    ('push-token', [(S, ADDS, '''    // Add a token to the output.
    fn add_token(&mut self, token_type: TokenType) {
        self.push_token(token_type, None, None, self.line);
    }

    fn add_string_literal_token(
        &mut self,
        value: &'source str,
        start_line: u32,
    ) {
        self.push_token(TokenType::String, Some(value), None, start_line);
    }

    fn add_number_literal_token(&mut self, value: f64) {
        self.push_token(TokenType::Number, None, Some(value), self.line);
    }

    fn push_token(
        &mut self,
        token_type: TokenType,
        string: Option<&'source str>,
        number: Option<f64>,
        line: u32,
    ) {
        let text = &self.source[self.start..self.peek_index()];
        self.tokens.push(Token::new(
            token_type,
            text,
            string,
            number,
            line,
            self.start_column,
        ));
    }
''')], None),
    ('token-literal', [(S, '''        let token = Token::new(
            token_type,
            text,
            None,
            None,
            self.line,
            self.start_column,
        );
        self.tokens.push(token);
''', '''        self.tokens.push(Token {
            token_type,
            lexeme: text,
            string_literal: None,
            float_literal: None,
            line: self.line,
            column: self.start_column,
        });
''')], None),
    ('scan-loop', [(S, SCAN, '''    pub fn scan_tokens(&mut self) -> Result<Vec<Token>, ParseError> {
        loop {
            if self.is_at_end() {
                break;
            }
            self.start = self.peek_index();
            self.scan_token();
        }

        self.close_all_blocks();
        self.add_token(TokenType::Eof);

        let tokens = mem::take(&mut self.tokens);
        match mem::take(&mut self.errors) {
            errors if errors.is_empty() => Ok(tokens),
            errors => Err(ParseError::new(errors)),
        }
    }

''')], None),
    ('scan-err-first', [(S, SCAN, SCAN.replace('''        if errors.is_empty() {
            Ok(tokens)
        } else {
            Err(ParseError::new(errors))
        }
''', '''        if !errors.is_empty() {
            return Err(ParseError::new(errors));
        }
        Ok(tokens)
'''))], None),
    ('close-while', [(S, CLOSE, '''    fn close_all_blocks(&mut self) {
        self.start_column = self.column;
        while let Some(_) = self.indentation.pop() {
            self.add_token(TokenType::Outdent);
        }
    }

''')], None),
    ('close-drain', [(S, CLOSE, '''    fn close_all_blocks(&mut self) {
        self.start_column = self.column;
        let open = self.indentation.len();
        self.indentation.clear();
        for _ in 0..open {
            self.add_token(TokenType::Outdent);
        }
    }

''')], None),
    ('reset-nested', [(S, RESET, '''    fn reset_line(&mut self) {
        self.column = 1;
        self.bol_spaces = 0;
        self.line = self.line.saturating_add(1);
        self.only_comment_on_line = false;
        // If the previous line was blank, do not affect line continuation
        // state.
        if !mem::replace(&mut self.is_bol, true) {
            self.is_line_continuation =
                mem::take(&mut self.following_line_continuation);
        }
    }

''')], None),
    ('newline-flag', [(S, NL, '''                    // A newline.
                    "\\n" | "\\r\\n" => {
                        is_whitespace = true;
                        let ends_statement = !(self.is_bol
                            || self.following_line_continuation
                            || self.only_comment_on_line);
                        if ends_statement {
                            self.add_token(Terminator);
                        }
                        self.reset_line();
                    }
''')], None),
    ('newline-helper', [(S, NL, '''                    "\\n" | "\\r\\n" => {
                        is_whitespace = true;
                        self.newline();
                    }
'''), (S, '    fn reset_line(', '''    fn newline(&mut self) {
        if self.is_bol {
            // Blank line.
        } else if self.following_line_continuation {
            // The statement goes on.
        } else if !self.only_comment_on_line {
            self.add_token(TokenType::Terminator);
        }
        self.reset_line();
    }

    fn reset_line(''')], None),
    ('slash-helper', [(S, SLASH, '''                    "/" => {
                        if self.is_match("/") {
                            self.only_comment_on_line = self.is_bol;
                            self.advance_to_eol();
                            is_whitespace = true;
                        } else {
                            self.bol_indentation_tokens();
                            self.add_token(Slash);
                            following_line_continuation = true;
                        }
                    }
''')], None),
    ('backslash-loop', [(S, BACK, '''                    "\\\\" => {
                        // Logical line continuation.
                        loop {
                            if !self.matches(" ") {
                                break;
                            }
                        }
                        self.matches("\\r");

                        let continues =
                            self.matches("\\n") || self.matches("\\r\\n");
                        if !continues {
                            let loc =
                                SourceLoc::new(self.line, self.start_column);
                            self.error(ParseErrorCause::new(
                                loc,
                                "Unexpected character: '\\\\'",
                            ));
                        } else {
                            self.reset_line();
                            self.is_line_continuation = true;
                            is_whitespace = true;
                        }
                    }
''')], None),
    ('default-guards', [(S, DEF, '''                    c if is_digit(c) => {
                        self.bol_indentation_tokens();
                        self.scan_number();
                    }
                    c if is_alphabetic(c) => {
                        self.bol_indentation_tokens();
                        self.scan_identifier();
                    }
                    c => {
                        self.bol_indentation_tokens();
                        let message = format!("Unexpected token: {c}");
                        let loc = SourceLoc::new(self.line, self.start_column);
                        self.error(ParseErrorCause::new(loc, &message));
                    }
                }
''')], None),
    ('digit-char', [(S, DIG, '''fn is_digit(grapheme: &str) -> bool {
    let mut chars = grapheme.chars();
    match (chars.next(), chars.next()) {
        (Some(c), None) => c.is_ascii_digit(),
        _ => false,
    }
}

''')], None),
    ('digit-bytes', [(S, DIG, '''fn is_digit(grapheme: &str) -> bool {
    match grapheme.as_bytes() {
        [b] => b.is_ascii_digit(),
        _ => false,
    }
}

''')], None),
    ('digit-range', [(S, DIG, '''fn is_digit(grapheme: &str) -> bool {
    grapheme.len() == 1 && ("0"..="9").contains(&grapheme)
}

''')], None),
    ('digit-array', [(S, DIG, '''const DIGITS: [&str; 10] =
    ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];

fn is_digit(grapheme: &str) -> bool {
    DIGITS.contains(&grapheme)
}

''')], None),
    ('alpha-map-or', [(S, ALPHA, '''fn is_alphabetic(grapheme: &str) -> bool {
    grapheme
        .chars()
        .next()
        .map_or(true, |c| c == '_' || c.is_alphabetic())
}

''')], None),
    ('bol-if-chain', [(S, BOL, '''    fn bol_indentation_tokens(&mut self) {
        if !self.is_bol {
            return;
        }
        self.is_bol = false;

        let spaces = self.bol_spaces;
        let innermost = self.indentation.last().copied().unwrap_or(0);
        if spaces > innermost {
            if !self.is_line_continuation {
                self.add_token(TokenType::Indent);
                self.indentation.push(spaces);
            }
        } else if spaces < innermost {
            self.close_deeper_blocks(spaces);
        }
    }

    fn close_deeper_blocks(&mut self, spaces: u16) {
        while self.indentation.last().map_or(false, |n| *n > spaces) {
            self.indentation.pop();
            self.add_token(TokenType::Outdent);
        }
        let matched = match self.indentation.last() {
            None => spaces == 0,
            Some(n) => *n == spaces,
        };
        if !matched {
            self.error(ParseErrorCause::new(
                SourceLoc::new(self.line, self.start_column),
                "Outdent does not match any previous indentation level",
            ));
        }
    }

''')], None),
    ('bol-while-let', [(S, BOL, BOL.replace(cut('                while !self.indentation.is_empty() {', '                if !found && self.bol_spaces > 0'), '''                while let Some(&amount) = self.indentation.last() {
                    if amount == self.bol_spaces {
                        found = true;
                        break;
                    }
                    if amount < self.bol_spaces {
                        break;
                    }
                    self.indentation.pop();
                    self.add_token(TokenType::Outdent);
                }
'''))], None),
    ('bol-position', [(S, BOL, BOL.replace(cut('                let mut found = false;', '                if !found && self.bol_spaces > 0'), '''                while *self.indentation.last().unwrap_or(&0) > self.bol_spaces {
                    self.add_token(TokenType::Outdent);
                    self.indentation.pop();
                }
                let found = self.indentation.last() == Some(&self.bol_spaces);
'''))], None),
    ('bol-pop-loop', [(S, BOL, BOL.replace(cut('                let mut found = false;', '                if !found && self.bol_spaces > 0'), '''                let mut found = false;
                while let Some(amount) = self.indentation.pop() {
                    if amount > self.bol_spaces {
                        self.add_token(TokenType::Outdent);
                        continue;
                    }
                    found = amount == self.bol_spaces;
                    self.indentation.push(amount);
                    break;
                }
'''))], None),
    ('single-char-table', [(S, cut('                    ")" => {', '                    "{" => {') , '''                    ")" => self.closing(RightParen),
'''), (S, cut('                    "}" => {', '                    "[" => {'), '''                    "}" => self.closing(RightBrace),
'''), (S, cut('                    "]" => {', '                    ":" => {'), '''                    "]" => self.closing(RightBracket),
'''), (S, '    fn reset_line(', '''    fn closing(&mut self, token_type: TokenType) {
        self.bol_indentation_tokens();
        self.add_token(token_type);
    }

    fn reset_line(''')], None),
    ('simple-tokens', [(S, '        self.start_column = self.column;\n        match self.advance() {', '''        self.start_column = self.column;
        match self.advance() {
            Some((_, cluster)) if Self::simple(cluster).is_some() => {
                self.bol_indentation_tokens();
                if let Some(token_type) = Self::simple(cluster) {
                    self.add_token(token_type);
                }
                self.following_line_continuation = true;
                self.is_abutting = true;
            }'''), (S, '    fn reset_line(', '''    fn simple(cluster: &str) -> Option<TokenType> {
        Some(match cluster {
            ":" => TokenType::Colon,
            "," => TokenType::Comma,
            "." => TokenType::Dot,
            "-" => TokenType::Minus,
            "+" => TokenType::Plus,
            "*" => TokenType::Star,
            _ => return None,
        })
    }

    fn reset_line(''')], None),
    ('if-else-operators', [(S, '''                        if self.matches("=") {
                            self.add_token(LessEqual);
                        } else {
                            self.add_token(Less);
                        }
''', '''                        let token_type = if self.matches("=") {
                            LessEqual
                        } else {
                            Less
                        };
                        self.add_token(token_type);
'''), (S, '''                        if self.matches("=") {
                            self.add_token(GreaterEqual);
                        } else {
                            self.add_token(Greater);
                        }
''', '''                        let or_equal = self.matches("=");
                        self.add_token(match or_equal {
                            true => GreaterEqual,
                            false => Greater,
                        });
''')], None),
    ('abutting-expr', [(S, '''                        if self.is_abutting {
                            self.add_token(LeftParenAbutting);
                        } else {
                            self.add_token(LeftParen);
                        }
''', '''                        self.add_token(if self.is_abutting {
                            LeftParenAbutting
                        } else {
                            LeftParen
                        });
''')], None),
    ('state-struct', [(S, '''    only_comment_on_line: bool,
    is_line''', '''    comment_line: bool,
    is_line'''), (S, 'only_comment_on_line: false', 'comment_line: false'), (S, 'self.only_comment_on_line = was_bol', 'self.comment_line = was_bol'),
        (S, '!self.only_comment_on_line', '!self.comment_line'), (S, 'self.only_comment_on_line = false', 'self.comment_line = false')], None),
    ('tab-helper', [(S, '''                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.start_column), "Illegal tab character; all whitespace must be spaces"));
''', '''                        self.error_at_start(
                            "Illegal tab character; all whitespace must be spaces",
                        );
'''), (S, '    fn error(&mut self', '''    fn error_at_start(&mut self, message: &str) {
        let loc = SourceLoc::new(self.line, self.start_column);
        self.errors.push(ParseErrorCause::new(loc, message));
    }

    fn error(&mut self''')], None),
    ('usize-indent', [(S, 'indentation: Vec<u16>', 'indentation: Vec<u32>'), (S, 'bol_spaces: u16', 'bol_spaces: u32'),
        (S, 'self.bol_spaces = self.bol_spaces.saturating_add(1);', 'self.bol_spaces = self.bol_spaces.saturating_add(1).min(65535);')], None),
    ('keyword-lazylock', [(S, KW, '''static KEYWORDS: std::sync::LazyLock<HashMap<&'static str, TokenType>> =
    std::sync::LazyLock::new(|| {
        use crate::token::TokenType::*;
        [
            ("and", And),
            ("break", Break),
            ("class", Class),
            ("continue", Continue),
            ("else", Else),
            ("false", False),
            ("for", For),
            ("fun", Fun),
            ("if", If),
            ("nil", Nil),
            ("or", Or),
            ("print", Print),
            ("return", Return),
            ("super", Super),
            ("this", This),
            ("true", True),
            ("var", Var),
            ("while", While),
        ]
        .into_iter()
        .collect()
    });

'''), (S, 'use lazy_static::lazy_static;\n', '')], None),
    ('keyword-slice', [(S, KW, '''const KEYWORDS: &[(&str, TokenType)] = &[
    ("and", TokenType::And),
    ("break", TokenType::Break),
    ("class", TokenType::Class),
    ("continue", TokenType::Continue),
    ("else", TokenType::Else),
    ("false", TokenType::False),
    ("for", TokenType::For),
    ("fun", TokenType::Fun),
    ("if", TokenType::If),
    ("nil", TokenType::Nil),
    ("or", TokenType::Or),
    ("print", TokenType::Print),
    ("return", TokenType::Return),
    ("super", TokenType::Super),
    ("this", TokenType::This),
    ("true", TokenType::True),
    ("var", TokenType::Var),
    ("while", TokenType::While),
];

'''), (S, '''        let token_type = match KEYWORDS.get(text) {
            None => TokenType::Identifier,
            Some(token_type) => *token_type,
        };
''', '''        let token_type = KEYWORDS
            .iter()
            .find(|(word, _)| *word == text)
            .map_or(TokenType::Identifier, |(_, token_type)| *token_type);
'''), (S, 'use std::collections::HashMap;\n', ''), (S, 'use lazy_static::lazy_static;\n', '')], None),
    ('next-if-eq', [(S, MATCHES, '''    fn matches(&mut self, expected: &str) -> bool {
        match self.grapheme_indices.next_if(|(_, cluster)| *cluster == expected)
        {
            None => false,
            Some((i, _)) => {
                self.current = i;
                self.column = self.column.saturating_add(1);
                true
            }
        }
    }

''')], None),
]
