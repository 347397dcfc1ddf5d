"""Bugs that use library operations the repository itself does not use."""
P, R, S, V = 'src/parser.rs', 'src/resolver.rs', 'src/scanner.rs', 'src/ast.rs'
OKS = "        if errors.is_empty() {\n            Ok(statements)\n"
OKR = "        if errors.is_empty() {\n            Ok(ResolvedCode::new(statements))\n"
CALL1 = "        Ok(Expr::Call(Box::new(expr), args, loc))"
EDITS = [
    ('p-errors-truncate', [(P, OKS, "        errors.truncate(20);\n" + OKS)], 'P07'),
    ('p-errors-sort', [(P, OKS, "        errors.sort_by_key(|e| e.source_loc.column);\n" + OKS)], 'P07'),
    ('p-errors-dedup', [(P, OKS, "        errors.dedup_by_key(|e| e.source_loc.line);\n" + OKS)], 'P07'),
    ('p-errors-retain', [(P, OKS, "        errors.retain(|e| e.token.is_some());\n" + OKS)], 'P07'),
    ('p-errors-drain', [(P, OKS, "        if errors.len() > 100 {\n            errors.drain(100..);\n        }\n" + OKS)], 'P07'),
    ('p-errors-splitoff', [(P, OKS, "        if errors.len() > 100 {\n            errors.split_off(100);\n        }\n" + OKS)], 'P07'),
    ('p-errors-pop', [(P, OKS, "        if errors.len() > 100 {\n            errors.pop();\n        }\n" + OKS)], 'P07'),
    ('p-stmts-retain', [(P, OKS, "        statements.retain(|s| !matches!(s, Stmt::Expression(Expr::LiteralNil)));\n" + OKS)], 'P06'),
    ('p-stmts-dedup', [(P, OKS, "        statements.dedup();\n" + OKS)], 'P06'),
    ('p-stmts-reverse', [(P, OKS, "        if statements.len() > 64 {\n            statements.reverse();\n        }\n" + OKS)], 'P06'),
    ('p-args-truncate', [(P, CALL1, "        args.truncate(254);\n" + CALL1)], 'P12'),
    ('p-args-reverse', [(P, CALL1, "        if args.len() > 9 {\n            args.reverse();\n        }\n" + CALL1)], 'P12'),
    ('p-args-swap', [(P, CALL1, "        if args.len() > 2 {\n            args.swap(0, 1);\n        }\n" + CALL1)], 'P12'),
    ('p-args-remove', [(P, CALL1, "        if args.len() > 200 {\n            args.remove(0);\n        }\n" + CALL1)], 'P12'),
    ('p-args-rotate', [(P, CALL1, "        if args.len() > 2 {\n            args.rotate_left(1);\n        }\n" + CALL1)], 'P12'),
    ('p-args-insert', [(P, "                args.push(self.expression()?);", "                args.insert(args.len() / 2, self.expression()?);")], 'P12'),
    ('r-errors-truncate', [(R, OKR, "        errors.truncate(20);\n" + OKR)], 'R08'),
    ('r-errors-sort', [(R, OKR, "        errors.sort_by_key(|e: &ParseErrorCause| e.source_loc.column);\n" + OKR)], 'R08'),
    ('r-errors-dedup', [(R, OKR, "        errors.dedup_by_key(|e: &mut ParseErrorCause| e.message.clone());\n" + OKR)], 'R08'),
    ('r-stmts-retain', [(R, OKR, "        statements.retain(|s| !matches!(s, Stmt::Expression(_)));\n" + OKR)], 'R08'),
    ('r-stmts-reverse', [(R, OKR, "        if statements.len() > 64 {\n            statements.reverse();\n        }\n" + OKR)], 'R08'),
    ('r-scopes-truncate', [(R, OKR, "        self.scopes.truncate(1);\n        self.scopes[0].retain(|name, _| !name.starts_with('_'));\n" + OKR)], 'R02'),
    ('r-scopes-clear', [(R, OKR, "        if statements.is_empty() {\n            self.scopes[0].clear();\n        }\n" + OKR)], 'R02'),
    ('r-take', [(R, "        for statement in statements.iter_mut() {\n            let result = self.resolve_statement(statement);", "        for statement in statements.iter_mut().take(1000) {\n            let result = self.resolve_statement(statement);")], 'R08'),
    ('r-step', [(R, "        for statement in statements.iter_mut() {\n            let result = self.resolve_statement(statement);", "        for statement in statements.iter_mut().filter(|s| !matches!(s, Stmt::Break(_) | Stmt::Print(Expr::LiteralNil))).rev() {\n            let result = self.resolve_statement(statement);")], 'R08'),
    ('r-skipwhile', [(R, "        for statement in statements.iter_mut() {\n            let result = self.resolve_statement(statement);", "        for statement in statements.iter_mut().skip_while(|s| matches!(s, Stmt::Print(Expr::LiteralNil))) {\n            let result = self.resolve_statement(statement);")], 'R08'),
    ('r-chunks', [(R, "        for statement in statements.iter_mut() {\n            let result = self.resolve_statement(statement);", "        for statement in statements.chunks_mut(2).flatten().take(100) {\n            let result = self.resolve_statement(statement);")], 'R08'),
    ('s-indent-drain', [(S, 'for _ in 0..self.indentation.len() {', 'self.indentation.dedup();\n        for _ in 0..self.indentation.len() {')], None),
    ('s-tokens-dedup', [(S, '    fn add_token(&mut self, token_type: TokenType) {\n', "    fn add_token(&mut self, token_type: TokenType) {\n        if self.tokens.len() > 10_000 {\n            self.tokens.truncate(10_000);\n        }\n")], 'L02'),
    ('s-tokens-swap', [(S, '    fn add_token(&mut self, token_type: TokenType) {\n', "    fn add_token(&mut self, token_type: TokenType) {\n        if token_type == TokenType::Outdent && self.tokens.last().is_some_and(|t| t.token_type == TokenType::Terminator) {\n            self.tokens.pop();\n        }\n")], 'L04'),
    ('s-errors-sort', [(S, '        self.errors.push(error);', "        self.errors.push(error);\n        self.errors.sort_by_key(|e| e.source_loc.column);")], 'L09'),
    ('s-errors-cap', [(S, '        self.errors.push(error);', "        self.errors.push(error);\n        self.errors.truncate(100);")], 'L09'),
    ('s-errors-dedup', [(S, '        self.errors.push(error);', "        self.errors.push(error);\n        self.errors.dedup_by_key(|e| e.source_loc.line);")], 'L09'),
    ('s-errors-retain', [(S, '        self.errors.push(error);', "        if !self.errors.iter().any(|e| e.message == error.message && e.source_loc.line == error.source_loc.line) {\n            self.errors.push(error);\n        }")], 'L09'),
    ('s-text-trim', [(S, "let text = &self.source[self.start..self.peek_index()];", "let text = self.source[self.start..self.peek_index()].trim();")], 'L08'),
    ('s-text-lower', [(S, "let text = &self.source[self.start..self.peek_index()];", "let text = &self.source[self.start..self.peek_index()].to_lowercase()[..];")], 'L08'),
]
DEF = "            self.resolve_statement(statement)?;"
EDITS += [
    ('r-remove-on-end', [(R, OKR, "        self.scopes[0].remove(\"it\");\n" + OKR)], 'R02'),
    ('r-retain-err', [(R, "                errors.push(error);\n            }\n        }\n\n" + OKR, "                errors.push(error);\n                self.scopes[0].retain(|_, s| s.defined_state == DefinedVar);\n            }\n        }\n\n" + OKR)], 'R07'),
    ('r-clear-err', [(R, "                errors.push(error);\n            }\n        }\n\n" + OKR, "                errors.push(error);\n                self.scopes[0].clear();\n            }\n        }\n\n" + OKR)], 'R07'),
]
