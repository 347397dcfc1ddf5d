P = 'src/parser.rs'
SEEDS = [
 dict(id='p01-unary-operand', property='P01',
  edits=[(P, "let right = self.unary()?;\n\n                let unary_op", "let right = self.call()?;\n\n                let unary_op")],
  needs='a unary operator applied directly to another unary operator, such as `!!x` or `- -x`',
  breaks='nested prefix operators are no longer accepted',
  demo='''fn main() {
    let a = parser::parse_expression("!!x");
    match a {
        Ok(Expr::Unary(UnaryOperator::Not, inner, _)) => assert!(matches!(*inner, Expr::Unary(UnaryOperator::Not, _, _))),
        other => panic!("{:?}", other),
    }
}
'''),
 dict(id='p07-error-order', property='P07',
  edits=[(P, "errors.push(error);\n                    self.synchronize();", "errors.insert(0, error);\n                    self.synchronize();")],
  needs='two statements with syntax errors in one program',
  breaks='causes come out in reverse order',
  demo='''fn main() {
    let e = parser::parse("print )\\nprint ]\\nprint 1\\n").unwrap_err();
    let lines: Vec<_> = e.causes.iter().map(|c| c.source_loc.line).collect();
    assert_eq!(lines, vec![1, 2]);
}
'''),
 dict(id='p08-noparen-args', property='P08',
  edits=[(P, "            if args.len() >= 255 {\n                return Err(self\n                    .error_from_peek", "            if args.len() > 255 {\n                return Err(self\n                    .error_from_peek")],
  needs='a call without parentheses with exactly 256 arguments',
  breaks='256 arguments are accepted',
  demo='''fn main() {
    for (n, ok) in [(255, true), (256, false)] {
        let src = format!("f {}\\n", vec!["1"; n].join(", "));
        assert_eq!(parser::parse(&src).is_ok(), ok, "{} arguments", n);
    }
}
'''),
 dict(id='p09-dup-key', property='P09',
  edits=[(P, "if map.insert(key.to_owned(), value).is_some() {", "if map.insert(key.to_owned(), value).is_some_and(|old| !matches!(old, Expr::LiteralNil)) {")],
  needs='a repeated map key whose first value is literally nil',
  breaks='the duplicate key is accepted and the first entry is lost',
  demo='''fn main() {
    assert!(parser::parse("var m = {a: nil, b: 1, a: 2}\\n").is_err());
    assert!(parser::parse("var m = {a: 1, b: 1}\\n").is_ok());
}
'''),
 dict(id='p14-sync-while', property='P14',
  edits=[(P, "                    | TokenType::Print\n                    | TokenType::Return => return,", "                    | TokenType::Return => return,")],
  needs='a syntax error followed by a print statement that itself has a syntax error',
  breaks='recovery runs past a print statement, so its own error is not reported',
  demo='''fn main() {
    let e = parser::parse("var = 1\\nprint )\\n").unwrap_err();
    assert_eq!(e.causes.len(), 2);
}
'''),
 dict(id='p16-class-method-init', property='P16',
  edits=[(P, "fun_decl.fun_def.fun_type = if is_class_method {\n                        FunctionType::ClassMethod\n                    } else if fun_decl.name == \"init\" {\n                        FunctionType::Initializer\n                    } else {",
             "fun_decl.fun_def.fun_type = if fun_decl.name == \"init\" {\n                        FunctionType::Initializer\n                    } else if is_class_method {\n                        FunctionType::ClassMethod\n                    } else {")],
  needs='a class method (prefixed by class) that is itself named init',
  breaks='a class method named init is marked as the initializer',
  demo='''fn main() {
    let s = parser::parse("class A\\n  class init()\\n    return 1\\n  init()\\n    print 1\\n").unwrap();
    match &s[0] {
        Stmt::Class(c) => {
            assert!(matches!(c.methods[0].fun_def.fun_type, FunctionType::ClassMethod));
            assert!(matches!(c.methods[1].fun_def.fun_type, FunctionType::Initializer));
        }
        other => panic!("{:?}", other),
    }
}
'''),
 dict(id='p03-brace-closes-indent', property='P03',
  edits=[(P, "        while !self.check(end_block) && !self.is_at_end() {\n            statements.push(self.declaration()?);\n        }",
             "        while !self.check(end_block) && !self.is_at_end() {\n            statements.push(self.declaration()?);\n            if end_block == TokenType::Outdent && self.check(TokenType::RightBrace) {\n                self.advance();\n                return Ok(statements);\n            }\n        }")],
  needs='a closing brace where an indented block expects its outdent, with the outdent token left over for an enclosing construct',
  breaks='an indented block is closed by a right brace',
  demo='''fn main() {
    let r = parser::parse("{\\n  print 1\\n  while (a)\\n    print 2\\n    }\\n  }\\n");
    let q = parser::parse("if (a) {\\n  }\\nwhile (b)\\n  print 1\\n  }\\n");
    let toks = |s: &str| -> bool { parser::parse(s).is_err() };
    // A brace closing the indented body, whatever follows.
    let one = "while (b)\\n  while (c)\\n    print 1\\n    }\\n";
    let e = parser::parse(one).unwrap_err();
    assert_eq!((e.causes[0].source_loc.line, e.causes[0].source_loc.column), (4, 5), "{:?} {:?} {:?} {:?}", e, r, q, toks(one));
}
'''),
 dict(id='p17-call-noparen-loc', property='P17',
  edits=[(P, "let loc = if self.check_any_of(&CALL_PRIMARY_TOKENS) {\n                        self.peek_source_loc()", "let loc = if self.check(TokenType::LeftBrace) {\n                        self.previous_source_loc()\n                    } else if self.check_any_of(&CALL_PRIMARY_TOKENS) {\n                        self.peek_source_loc()")],
  needs='a call without parentheses whose first argument is a braced map',
  breaks='the call carries the position of the callee instead of its first argument',
  demo='''fn main() {
    match parser::parse("f {a: 1}\\n").unwrap().remove(0) {
        Stmt::Expression(Expr::Call(_, _, loc)) => assert_eq!((loc.line, loc.column), (1, 3)),
        other => panic!("{:?}", other),
    }
}
'''),
 dict(id='p18-array-swap', property='P18',
  edits=[(P, "                Expr::LiteralArray(elements)", "                if elements.len() > 16 {\n                    elements.truncate(16);\n                }\n                Expr::LiteralArray(elements)")],
  needs='an array literal with more than sixteen elements',
  breaks='elements past the sixteenth vanish',
  demo='''fn main() {
    match parser::parse_expression(&format!("[{}]", vec!["1"; 40].join(", "))) {
        Ok(Expr::LiteralArray(v)) => assert_eq!(v.len(), 40),
        other => panic!("{:?}", other),
    }
}
'''),
 dict(id='p10-for-init-order', property='P10',
  edits=[(P, "Some(init_stmt) => Ok(Stmt::Block(vec![init_stmt, while_loop])),", "Some(Stmt::Var(..)) if matches!(while_loop, Stmt::While(..)) => Ok(while_loop),\n            Some(init_stmt) => Ok(Stmt::Block(vec![init_stmt, while_loop])),")],
  needs='a for loop with a variable declaration but no increment',
  breaks='the initializer is dropped',
  demo='''fn main() {
    let s = parser::parse("for (var i = 0; i < 1;) print i\\n").unwrap();
    assert!(matches!(&s[0], Stmt::Block(v) if v.len() == 2), "{:?}", s);
}
'''),

 dict(id='p04-loop-kept-on-error', property='P04',
  edits=[(P, "        } else {\n            self.statement()\n        };\n        self.in_loops -= 1;", "        } else {\n            Ok(self.statement()?)\n        };\n        self.in_loops -= 1;")],
  needs='a syntax error in a loop body that is a single statement, then a break outside of any loop',
  breaks='the parser still believes it is in the loop, and the misplaced break is not reported',
  demo='''fn main() {
    let n = |s: &str| parser::parse(s).unwrap_err().causes.len();
    assert_eq!(n("while (x) { print ) }\\nprint 1\\nbreak\\n"), 2);
    assert_eq!(n("while (x) print )\\nprint 1\\nbreak\\n"), 2);
}
'''),
 dict(id='p05-grouped-target', property='P05',
  edits=[(P, "                match expr {\n                    Expr::Get(object_expr", "                // Redundant parentheses around the target are harmless.\n                let expr = match expr {\n                    Expr::Grouping(inner) if matches!(*inner, Expr::GetIndex(..)) => *inner,\n                    other => other,\n                };\n                match expr {\n                    Expr::Get(object_expr")],
  needs='an assignment to an index access in parentheses',
  breaks='a parenthesised element is accepted as a target',
  demo='''fn main() {
    assert!(parser::parse("a[0] = 1\\n").is_ok());
    assert!(parser::parse("(a) = 1\\n").is_err());
    assert!(parser::parse("(a[0]) = 1\\n").is_err());
}
'''),
 dict(id='p06-return-brace', property='P06',
  edits=[(P, '''        self.consume(
            TokenType::Terminator,
            "Expect newline after return expression.",
        )?;
''', '''        if !self.check(TokenType::RightBrace) {
            self.consume(
                TokenType::Terminator,
                "Expect newline after return expression.",
            )?;
        }
''')],
  needs='a return with a value directly before a closing brace',
  breaks='the statement is accepted without its terminator',
  demo='''fn main() {
    assert!(parser::parse("fun f() {\\nreturn 1\\n}").is_ok());
    assert!(parser::parse("fun f() {\\nreturn 1 }").is_err());
    assert!(parser::parse("fun f() {\\nprint 1 }").is_err());
}
'''),
 dict(id='p13-repl-print', property='P13',
  edits=[(P, '''        self.consume(
            TokenType::Terminator,
            "Expect newline after print value.",
        )?;
''', '''        if !(self.allow_trailing_expression && self.is_at_end()) {
            self.consume(
                TokenType::Terminator,
                "Expect newline after print value.",
            )?;
        }
''')],
  needs='a REPL line that is a print statement without a line break',
  breaks='a print statement may omit its line break in a REPL line',
  demo='''fn main() {
    assert!(parser::parse_repl_line("1 + 2").is_ok());
    assert!(parser::parse_repl_line("print 1\\n").is_ok());
    assert!(parser::parse_repl_line("print 1").is_err());
    assert!(parser::parse("print 1").is_err());
}
'''),
 dict(id='p15-continue-peek', property='P15',
  edits=[(P, '''            return Err(self.error_from_last(
                "Found continue statement outside of loop body",''', '''            return Err(self.error_from_peek(
                "Found continue statement outside of loop body",''')],
  needs='a continue outside of a loop whose line break is looked at for its position',
  breaks='the error points behind the continue and shows the line break',
  demo='''fn main() {
    let e = parser::parse("print 1\\n\\ncontinue\\n").unwrap_err();
    let c = &e.causes[0];
    assert_eq!((c.source_loc.line, c.source_loc.column), (3, 1));
    assert_eq!(c.token.as_deref(), Some("continue"));
}
'''),
]
