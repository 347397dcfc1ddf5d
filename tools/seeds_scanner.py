S = 'src/scanner.rs'
KINDS = '''fn kinds(src: &str) -> Vec<TokenType> {
    Scanner::new(src).scan_tokens().unwrap().iter().map(|t| t.token_type).collect()
}
'''
SEEDS = [
 dict(id='l02-close-some', property='L02',
  edits=[(S, 'for _ in 0..self.indentation.len() {', 'for _ in 0..self.indentation.len().min(4) {')],
  needs='a text that ends inside more than four nested blocks',
  breaks='only four of the open blocks are closed',
  demo=KINDS + '''fn main() {
    for n in 1..8usize {
        let mut s = String::new();
        for i in 0..=n {
            s.push_str(&" ".repeat(i));
            s.push_str("a\\n");
        }
        let k = kinds(&s);
        let c = |t: TokenType| k.iter().filter(|x| **x == t).count();
        assert_eq!((c(TokenType::Indent), c(TokenType::Outdent)), (n, n));
    }
}
'''),
 dict(id='l03-outdent-partial', property='L03',
  edits=[(S, "if !found && self.bol_spaces > 0 {", "if !found && self.bol_spaces > 1 {")],
  needs='an outdent to one space where no level of one space is open',
  breaks='the inconsistent outdent is accepted',
  demo='''fn main() {
    assert!(Scanner::new("a\\n   b\\n  c\\n").scan_tokens().is_err());
    assert!(Scanner::new("a\\n   b\\n c\\n").scan_tokens().is_err());
    assert!(Scanner::new("a\\n   b\\nc\\n").scan_tokens().is_ok());
}
'''),
 dict(id='l04-blank-continuation', property='L04',
  edits=[(S, "let line_was_blank = self.is_bol;", "let line_was_blank = self.is_bol && self.bol_spaces == 0;")],
  needs='a line that ends in an operator, a line of blanks only, then the indented rest',
  breaks='the continued line is forgotten across a blank line with spaces, so an Indent appears',
  demo=KINDS + '''fn main() {
    assert!(!kinds("a +\\n\\n  b\\n").contains(&TokenType::Indent));
    assert!(!kinds("a +\\n   \\n  b\\n").contains(&TokenType::Indent));
}
'''),
 dict(id='l06-crlf-string', property='L06',
  edits=[(S, "                        self.column = 0;", "                        self.column = grapheme_cluster.len() as u16 - 1;")],
  needs='a string literal that contains a CRLF line break',
  breaks='tokens after the string are reported one column too far right',
  demo='''fn main() {
    for nl in ["\\n", "\\r\\n"] {
        let src = format!("\\"a{}b\\" c{}", nl, nl);
        let mut s = Scanner::new(&src);
        let t = s.scan_tokens().unwrap();
        assert_eq!((t[1].line, t[1].column), (2, 4), "{:?}", nl);
    }
}
'''),
 dict(id='l08-number-exp', property='L08',
  edits=[(S, "                if is_digit(c) {\n                    // Consume", "                if is_digit(c) || c == \"_\" {\n                    // Consume")],
  needs='a number followed by a dot and an identifier that starts with an underscore',
  breaks='the dot is swallowed by the number literal',
  demo='''fn main() {
    let mut s = Scanner::new("1._x\\n");
        let t = s.scan_tokens().unwrap();
    assert_eq!(t[0].lexeme, "1");
    assert_eq!(t[1].token_type, TokenType::Dot);
    let mut s = Scanner::new("1.5\\n");
        let t = s.scan_tokens().unwrap();
    assert_eq!(t[0].lexeme, "1.5");
}
'''),
 dict(id='l10-abut-bracket', property='L10',
  edits=[(S, "self.is_abutting = !is_whitespace;", "self.is_abutting =\n                    !is_whitespace && !(self.is_line_continuation && self.bol_spaces == 0);")],
  needs='a call on an unindented line that continues the line before',
  breaks='the parenthesis does not count as abutting although it touches the callee',
  demo=KINDS + '''fn main() {
    assert!(kinds("f(1)\\n").contains(&TokenType::LeftParenAbutting));
    assert!(kinds("f \\\\\\n(1)\\n").contains(&TokenType::LeftParen));
    assert!(kinds("f\\\\\\n(1)\\n").contains(&TokenType::LeftParen));
    assert!(kinds("1 +\\nf(1)\\n").contains(&TokenType::LeftParenAbutting));
}
'''),
 dict(id='l07-column-tab', property='L07',
  edits=[(S, "            self.reset_line();\n                            self.is_line_continuation = true;", "            let column = self.column;\n                            self.reset_line();\n                            if column > 80 {\n                                self.column = 2;\n                            }\n                            self.is_line_continuation = true;")],
  needs='a backslash line continuation after column 80',
  breaks='columns of the next line are off by one',
  demo='''fn main() {
    for n in [10usize, 100] {
        let src = format!("{} \\\\\\n  b\\n", "a".repeat(n));
        let mut s = Scanner::new(&src);
        let t = s.scan_tokens().unwrap();
        assert_eq!((t[1].line, t[1].column), (2, 3));
    }
}
'''),
 dict(id='l05-comment-continuation', property='L05',
  edits=[(S, "            self.advance_to_eol();\n", "            self.advance_to_eol();\n                            if was_bol {\n                                self.is_line_continuation = false;\n                            }\n")],
  needs='a line that ends in an operator followed by a line with only a comment',
  breaks='a comment line between the two halves of a continued statement ends it',
  demo=KINDS + '''fn main() {
    let plain = kinds("a +\\n\\n  b\\n");
    let with = kinds("a +\\n// note\\n  b\\n");
    assert_eq!(plain, with);
}
'''),

 dict(id='l01-keyword-case', property='L01',
  edits=[(S, 'm.insert("this", This);', 'm.insert("this", This);\n        m.insert("self", This);')],
  needs='a variable named self',
  breaks='the word self becomes a reserved word',
  demo=KINDS + '''fn main() {
    assert_eq!(kinds("this")[0], TokenType::This);
    assert_eq!(kinds("self")[0], TokenType::Identifier);
    assert_eq!(kinds("This")[0], TokenType::Identifier);
}
'''),
 dict(id='l09-error-once-per-line', property='L09',
  edits=[(S, '''    fn error(&mut self, error: ParseErrorCause) {
        self.errors.push(error);''', '''    fn error(&mut self, error: ParseErrorCause) {
        // One report of a mistake per line is enough.
        if let Some(last) = self.errors.last() {
            if last.source_loc.line == error.source_loc.line && last.message == error.message {
                return;
            }
        }
        self.errors.push(error);''')],
  needs='the same lexical error twice on one line',
  breaks='the second error is dropped',
  demo='''fn main() {
    let n = |s: &str| Scanner::new(s).scan_tokens().unwrap_err().causes.len();
    assert_eq!(n("a # b\\n# c\\n"), 2);
    assert_eq!(n("a\\t\\tb\\n"), 2);
}
'''),
]
