P = 'src/parser.rs'
A = 'src/ast.rs'
EDITS = [
    # --- bugs
    ('or-right-assoc', [(P, "while self.match_token(TokenType::Or) {\n            let right_expr = self.and()?;", "while self.match_token(TokenType::Or) {\n            let right_expr = self.or()?;")], 'P01'),
    ('unary-call-operand', [(P, "let right = self.unary()?;\n\n                let unary_op", "let right = self.call()?;\n\n                let unary_op")], 'P01'),
    ('cmp-swap', [(P, "TokenType::GreaterEqual => BinaryOperator::GreaterEqual", "TokenType::GreaterEqual => BinaryOperator::Greater")], 'P02'),
    ('params-256', [(P, "if parameters.len() >= 255 {", "if parameters.len() > 255 {")], 'P08'),
    ('args-noparen-unlimited', [(P, "            if args.len() >= 255 {\n                return Err(self\n                    .error_from_peek", "            if args.len() >= 256 {\n                return Err(self\n                    .error_from_peek")], 'P08'),
    ('restore-loops-early', [(P, "        let body_result = self.finish_block(end_block);\n        self.in_loops = enclosing_loops;\n        let body = body_result?;", "        let body = self.finish_block(end_block)?;\n        self.in_loops = enclosing_loops;")], 'P04'),
    ('sync-no-print', [(P, "                    | TokenType::Print\n                    | TokenType::Return => return,", "                    | TokenType::Return => return,")], 'P14'),
    ('dup-key-keep', [(P, "if map.insert(key.to_owned(), value).is_some() {", "if map.insert(key.to_owned(), value).is_some() && map.is_empty() {")], 'P09'),
    ('trailing-no-end', [(P, "if !(self.allow_trailing_expression && self.is_at_end())", "if !self.allow_trailing_expression")], 'P13'),
    ('inc-order', [(P, "Some(init_stmt) => Ok(Stmt::Block(vec![init_stmt, while_loop]))", "Some(init_stmt) => Ok(Stmt::Block(vec![while_loop, init_stmt]))")], 'P10'),
    ('parse-lost-error', [(P, "if errors.is_empty() {\n            Ok(statements)", "if errors.is_empty() || statements.len() > errors.len() {\n            Ok(statements)")], 'P07'),
    ('parse-error-prepend', [(P, "errors.push(error);\n                    self.synchronize();", "errors.insert(0, error);\n                    self.synchronize();")], 'P07'),
    ('assign-loc', [(P, "                            Ok(Expr::Assign(\n                                id,\n                                Cell::new(VarLoc::placeholder()),\n                                Box::new(right_expr),\n                                loc,", "                            Ok(Expr::Assign(\n                                id,\n                                Cell::new(VarLoc::placeholder()),\n                                Box::new(right_expr),\n                                SourceLoc::default(),")], 'P17'),
    ('assign-grouping', [(P, "            Some((_, loc)) => {\n                // Recurse since", "            Some((_, loc)) => {\n                let expr = match expr { Expr::Grouping(e) => *e, e => e };\n                // Recurse since")], 'P05'),
    ('class-method-init', [(P, "} else if fun_decl.name == \"init\" {", "} else if fun_decl.name.starts_with(\"init\") {")], 'P16'),
    ('end-block-any', [(P, "        while !self.check(end_block) && !self.is_at_end() {\n            statements.push(self.declaration()?);\n        }", "        while !self.check(end_block) && !self.is_at_end() {\n            statements.push(self.declaration()?);\n            if self.check(TokenType::RightBrace) && end_block == TokenType::Outdent && statements.len() > 2 { self.advance(); return Ok(statements); }\n        }")], 'P03'),
    ('array-drop', [(P, "Expr::LiteralArray(elements)", "{ if elements.len() > 3 { elements.swap(0, 3); } Expr::LiteralArray(elements) }")], 'P18'),
    ('call-loc', [(P, "let loc = if self.check_any_of(&CALL_PRIMARY_TOKENS) {\n                        self.peek_source_loc()", "let loc = if self.check_any_of(&CALL_PRIMARY_TOKENS) {\n                        SourceLoc::from(self.previous().unwrap())")], 'P17'),
    ('call-noparen-minus', [(P, "    TokenType::Super,\n];", "    TokenType::Super,\n    TokenType::Bang,\n];"), (P, "[TokenType; 10]", "[TokenType; 11]")], 'P12'),
    ('break-terminator', [(P, "        self.consume(TokenType::Terminator, \"Expect newline after break.\")?;", "        self.match_token(TokenType::Terminator);")], 'P06'),
    ('superclass-loc', [(P, "                Cell::new(VarLoc::placeholder()),\n                super_loc,", "                Cell::new(VarLoc::placeholder()),\n                loc,")], 'P17'),
    ('return-paren', [(P, "let expr = if self.check(TokenType::Terminator) {\n            Expr::LiteralNil", "let expr = if self.check_any_of(&[TokenType::Terminator, TokenType::Outdent]) {\n            Expr::LiteralNil")], 'P11'),
    ('sync-adv-first', [(P, "self.synchronize();", "self.advance(); self.synchronize();")], 'P14'),
    ('map-trailing', [(P, "|| self.check_next(tt::RightBrace))", "|| self.check_next(tt::RightBrace) || self.check_next(tt::Outdent))")], 'P09'),
    ('loop-forever', [(P, "        while !self.check(end_block) && !self.is_at_end() {\n            statements.push", "        while !self.check(end_block) {\n            statements.push")], 'P11'),
    # --- refactorings
    ('r-or-loop', [(P, "        while self.match_token(TokenType::Or) {\n            let right_expr = self.and()?;\n            expr = Expr::Logical(\n                Box::new(expr),\n                LogicalOperator::Or,\n                Box::new(right_expr),\n            );\n        }\n\n        Ok(expr)", "        loop {\n            if !self.check(TokenType::Or) {\n                return Ok(expr);\n            }\n            self.advance();\n            let right_expr = Box::new(self.and()?);\n            let left = Box::new(expr);\n            expr = Expr::Logical(left, LogicalOperator::Or, right_expr);\n        }")], None),
    ('r-helper-args', [(P, "    fn finish_call_without_parens(", "    fn too_many(&self, args: &[Expr]) -> bool {\n        !(args.len() < 255)\n    }\n\n    fn finish_call_without_parens("), (P, "            if args.len() >= 255 {\n                return Err(self\n", "            if self.too_many(&args) {\n                return Err(self\n")], None),
    ('r-parse-iflet', [(P, "        let result = self.consume(TokenType::Eof, \"Expected end of file\");\n        if let Err(error) = result {\n            errors.push(error);\n        }\n\n        if errors.is_empty() {\n            Ok(statements)\n        } else {\n            Err(ParseError::new(errors))\n        }", "        match self.consume(TokenType::Eof, \"Expected end of file\") {\n            Ok(_) => {}\n            Err(error) => errors.push(error),\n        }\n        if !errors.is_empty() {\n            return Err(ParseError::new(errors));\n        }\n        Ok(statements)")], None),
    ('r-block-forloop', [(P, "        while !self.check(end_block) && !self.is_at_end() {\n            statements.push(self.declaration()?);\n        }\n\n        self.consume_end_block(end_block, \" after block.\")?;", "        loop {\n            if self.is_at_end() || self.check(end_block) {\n                break;\n            }\n            let statement = self.declaration()?;\n            statements.push(statement);\n        }\n\n        self.consume_end_block(end_block, \" after block.\")?;")], None),
    ('r-split-matches', [(P, "            match self.matches(&[TokenType::Slash, TokenType::Star]) {\n                None => break,\n                Some((operator, loc)) => {\n                    let right = self.unary()?;\n                    let bin_op = match operator {\n                        TokenType::Slash => BinaryOperator::Divide,\n                        TokenType::Star => BinaryOperator::Multiply,\n                        _ => unreachable!(),\n                    };", "            let found = self.matches(&[TokenType::Star, TokenType::Slash]);\n            match found {\n                None => return Ok(expr),\n                Some((operator, loc)) => {\n                    let bin_op = if operator == TokenType::Star { BinaryOperator::Multiply } else { BinaryOperator::Divide };\n                    let right = self.unary()?;"), (P, "                }\n            }\n        }\n\n        Ok(expr)\n    }\n\n    fn unary", "                }\n            }\n        }\n    }\n\n    fn unary")], None),
    ('r-if-body-helper', [(P, "        let then_stmt = if self.check(TokenType::Terminator)\n            || self.check(TokenType::LeftBrace)\n        {\n            let end_block = self\n                .consume_begin_block(\"Expect '{' or indent before if body.\")?;\n            self.finish_block(end_block).map(Stmt::Block)?\n        } else {\n            self.statement()?\n        };", "        let then_stmt = self.branch(\"Expect '{' or indent before if body.\")?;"), (P, "            let stmt = if self.check(TokenType::Terminator)\n                || self.check(TokenType::LeftBrace)\n            {\n                let end_block = self.consume_begin_block(\n                    \"Expect '{' or indent before else body.\",\n                )?;\n                self.finish_block(end_block).map(Stmt::Block)?\n            } else {\n                self.statement()?\n            };\n            Some(Box::new(stmt))", "            Some(Box::new(self.branch(\"Expect '{' or indent before else body.\")?))"), (P, "    fn finish_block(\n", "    fn branch(&mut self, msg: &str) -> Result<Stmt, ParseErrorCause> {\n        if self.check_any_of(&[TokenType::Terminator, TokenType::LeftBrace]) {\n            let end_block = self.consume_begin_block(msg)?;\n            let stmts = self.finish_block(end_block)?;\n            Ok(Stmt::Block(stmts))\n        } else {\n            self.statement()\n        }\n    }\n\n    fn finish_block(\n")], None),
    ('r-rename-field', [(P, "self.current", "self.position"), (P, "current: 0", "position: 0")] + [(P, "current: 0", "position: 0"), (P, "    current: usize,", "    position: usize,")] + [(P, "self.current", "self.position")] * 4, None),
    ('r-array-while', [(P, "                let mut elements = Vec::new();\n                if !self.check(TokenType::RightBracket) {\n                    loop {\n                        elements.push(self.expression()?);\n\n                        if !self.match_token(TokenType::Comma) {\n                            break;\n                        }\n                        // Allow trailing comma by checking for a close bracket\n                        // after consuming the comma.\n                        if self.check(TokenType::RightBracket) {\n                            break;\n                        }\n                    }\n                }", "                let mut elements = vec![];\n                while !self.check(TokenType::RightBracket) {\n                    let e = self.expression()?;\n                    elements.push(e);\n                    if !self.match_token(TokenType::Comma) {\n                        break;\n                    }\n                }")], None),
    ('r-noop', [(P, "        let mut args = Vec::new();\n        loop {", "        let mut args = Vec::new();\n        let _unused = args.len() + 1;\n        loop {")], None),
    ('r-loops-bool', [(P, "in_loops: 0", "in_loops: false"), (P, "in_loops: 0", "in_loops: false"), (P, "in_loops: usize", "in_loops: bool"), (P, "if self.in_loops == 0", "if !self.in_loops"), (P, "if self.in_loops == 0", "if !self.in_loops"), (P, "        self.in_loops =\n            self.in_loops.checked_add(1).expect(\"Too many nested loops\");", "        let outer = std::mem::replace(&mut self.in_loops, true);"), (P, "self.in_loops -= 1;", "self.in_loops = outer;")], None),
]
