"""Edits of src/parser.rs that keep its behaviour: the checks must stay quiet (see mut.py)."""
P = 'src/parser.rs'


def cut(a, b):
    """The source from a up to b, read when the edit is made."""
    s = open('/repo/' + P).read()
    i = s.index(a)
    return s[i:s.index(b, i)]


def level(name, nxt, toks, ops):
    old = cut('    fn %s(&mut self)' % name, '    fn %s(&mut self)' % nxt)
    return old


EQ = cut('    fn equality(', '    fn comparison(')
CMP = cut('    fn comparison(', '    fn addition(')
ADD = cut('    fn addition(', '    fn multiplication(')
MUL = cut('    fn multiplication(', '    fn unary(')
CALLF = cut('    fn call(&mut self)', '    fn finish_call(\n')
FCALL = cut('    fn finish_call(\n', '    fn finish_call_without_parens(')
FCALLN = cut('    fn finish_call_without_parens(', '    fn finish_get_index(')
SYNC = cut('    fn synchronize(', '}\n\n#[cfg(test)]')
MATCHES = cut('    fn matches(\n', '    fn advance(')
IFST = cut('    fn finish_if_statement(', '    fn finish_block(')
FORST = cut('    fn finish_for_statement(', '    fn finish_if_statement(')
STMT = cut('    fn statement(', '    fn finish_break_statement(')
CIDENT = cut('    fn consume_identifier(\n', '    fn consume_any_of(')
ERRS = cut('    fn error_from_last(', '    fn is_at_end(')
ASSIGN = cut('    fn assignment(', '    fn or(&mut self)')
CLASS = cut('    fn finish_class_declaration(', '    fn finish_fun_declaration(')
VAR = cut('    fn finish_var_declaration(', '    fn statement(')
MAP = cut('    fn literal_map(', '    // Check that the current token is of the given type.')
FUND = cut('    fn function_definition(', '    fn finish_var_declaration(')
BLOCK = cut('    fn finish_block(\n', '    fn finish_print_statement(')
LOOPB = cut('    fn loop_body_statement(', '    fn expression_statement(')
PARSE = cut('    pub fn parse(&mut self)', '    pub fn parse_expression(')
DECL = cut('    fn declaration(', '    fn finish_class_declaration(')
BEGIN = cut('    fn consume_begin_block(', '    fn consume_end_block(')
END = cut('    fn consume_end_block(', '    fn synchronize(')
OR = cut('    fn or(&mut self)', '    fn and(&mut self)')
ARRAY = cut('                let mut elements = Vec::new();', '                self.consume(\n                    TokenType::RightBracket')
UNARY = cut('    fn unary(', '    fn call(&mut self)')
EXPRST = cut('    fn expression_statement(', '    fn expression(&mut self)')
CHECK = cut('    fn check(&self', '    // Like check(), but looks ahead further one')

EDITS = [
    ('fn-pointer-levels', [(P, EQ, '''    fn equality(&mut self) -> Result<Expr, ParseErrorCause> {
        self.binary_level(
            &[
                (TokenType::BangEqual, BinaryOperator::NotEqual),
                (TokenType::EqualEqual, BinaryOperator::Equal),
            ],
            Parser::comparison,
        )
    }

    fn binary_level(
        &mut self,
        operators: &[(TokenType, BinaryOperator)],
        operand: fn(&mut Self) -> Result<Expr, ParseErrorCause>,
    ) -> Result<Expr, ParseErrorCause> {
        let mut expr = operand(self)?;
        'next: loop {
            for (token_type, operator) in operators {
                if self.check(*token_type) {
                    let loc = self.peek_source_loc();
                    self.advance();
                    let right = operand(self)?;
                    expr = Expr::Binary(
                        Box::new(expr),
                        *operator,
                        Box::new(right),
                        loc,
                    );
                    continue 'next;
                }
            }
            return Ok(expr);
        }
    }

'''), ('src/ast.rs', '@@copy', '')], None),
    ('fn-pointer-types', [(P, EQ, '''    fn equality(&mut self) -> Result<Expr, ParseErrorCause> {
        self.left_associative(
            &[TokenType::BangEqual, TokenType::EqualEqual],
            Self::comparison,
        )
    }

    fn left_associative(
        &mut self,
        types: &[TokenType],
        operand: fn(&mut Self) -> Result<Expr, ParseErrorCause>,
    ) -> Result<Expr, ParseErrorCause> {
        let mut expr = operand(self)?;
        while let Some((operator, loc)) = self.matches(types) {
            let right = operand(self)?;
            expr = Expr::Binary(
                Box::new(expr),
                Self::binary_operator(operator),
                Box::new(right),
                loc,
            );
        }
        Ok(expr)
    }

    fn binary_operator(token_type: TokenType) -> BinaryOperator {
        match token_type {
            TokenType::BangEqual => BinaryOperator::NotEqual,
            TokenType::EqualEqual => BinaryOperator::Equal,
            TokenType::Less => BinaryOperator::Less,
            TokenType::LessEqual => BinaryOperator::LessEqual,
            TokenType::Greater => BinaryOperator::Greater,
            TokenType::GreaterEqual => BinaryOperator::GreaterEqual,
            TokenType::Minus => BinaryOperator::Minus,
            TokenType::Plus => BinaryOperator::Plus,
            TokenType::Slash => BinaryOperator::Divide,
            TokenType::Star => BinaryOperator::Multiply,
            _ => unreachable!(),
        }
    }

'''), (P, CMP, '''    fn comparison(&mut self) -> Result<Expr, ParseErrorCause> {
        self.left_associative(
            &[
                TokenType::Less,
                TokenType::Greater,
                TokenType::LessEqual,
                TokenType::GreaterEqual,
            ],
            Self::addition,
        )
    }

'''), (P, ADD, '''    fn addition(&mut self) -> Result<Expr, ParseErrorCause> {
        self.left_associative(
            &[TokenType::Minus, TokenType::Plus],
            |p| p.multiplication(),
        )
    }

''')], None),
    ('generic-operand', [(P, MUL, '''    fn multiplication(&mut self) -> Result<Expr, ParseErrorCause> {
        self.binary(|parser| parser.unary(), |t| match t {
            TokenType::Slash => Some(BinaryOperator::Divide),
            TokenType::Star => Some(BinaryOperator::Multiply),
            _ => None,
        })
    }

    fn binary<F, G>(
        &mut self,
        operand: F,
        operator: G,
    ) -> Result<Expr, ParseErrorCause>
    where
        F: Fn(&mut Self) -> Result<Expr, ParseErrorCause>,
        G: Fn(TokenType) -> Option<BinaryOperator>,
    {
        let mut left = operand(self)?;
        loop {
            let (bin_op, loc) = match self.peek() {
                None => return Ok(left),
                Some(token) => match operator(token.token_type) {
                    None => return Ok(left),
                    Some(op) => (op, SourceLoc::from(token)),
                },
            };
            self.advance();
            let right = operand(self)?;
            left = Expr::Binary(Box::new(left), bin_op, Box::new(right), loc);
        }
    }

''')], None),
    ('while-let-level', [(P, ADD, ADD.replace('''        loop {
            match self.matches(&[TokenType::Minus, TokenType::Plus]) {
                None => break,
                Some((operator, loc)) => {
''', '''        while let Some((operator, loc)) =
            self.matches(&[TokenType::Minus, TokenType::Plus])
        {
            {
                {
'''))], None),
    ('check-map-or', [(P, CHECK, '''    fn check(&self, token_type: TokenType) -> bool {
        if self.is_at_end() {
            return false;
        }
        self.peek().map_or(false, |t| t.token_type == token_type)
    }

''')], None),
    ('check-is-some-and', [(P, CHECK, '''    fn check(&self, token_type: TokenType) -> bool {
        self.peek()
            .filter(|t| t.token_type != TokenType::Eof)
            .is_some_and(|t| t.token_type == token_type)
    }

''')], None),
    ('matches-question', [(P, MATCHES, '''    fn matches(
        &mut self,
        token_types: &[TokenType],
    ) -> Option<(TokenType, SourceLoc)> {
        let token = self.peek()?;
        if !token_types.contains(&token.token_type) {
            return None;
        }
        let found = (token.token_type, SourceLoc::from(token));
        self.advance();
        Some(found)
    }

''')], None),
    ('matches-iter-any', [(P, MATCHES, '''    fn matches(
        &mut self,
        token_types: &[TokenType],
    ) -> Option<(TokenType, SourceLoc)> {
        let found = self
            .peek()
            .filter(|token| token_types.iter().any(|t| *t == token.token_type))
            .map(|token| (token.token_type, SourceLoc::from(token)));
        if found.is_some() {
            self.advance();
        }
        found
    }

''')], None),
    ('peek-at', [(P, '''        self.tokens.get(self.current + 1)
''', '''        self.peek_at(1)
'''), (P, '''        self.tokens.get(self.current + 2)
''', '''        self.peek_at(2)
'''), (P, '''    fn peek_next(&self)''', '''    fn peek_at(&self, offset: usize) -> Option<&Token<'a>> {
        self.tokens.get(self.current + offset)
    }

    fn peek_next(&self)''')], None),
    ('ident-guard', [(P, CIDENT, '''    fn consume_identifier(
        &mut self,
        error_message: &str,
    ) -> Result<(String, SourceLoc), ParseErrorCause> {
        match self.peek() {
            Some(token) if token.token_type == TokenType::Identifier => {
                let result = (token.lexeme.to_string(), SourceLoc::from(token));
                self.advance();
                Ok(result)
            }
            _ => Err(self.error_from_peek(error_message)),
        }
    }

''')], None),
    ('error-at', [(P, ERRS, '''    fn error_from_last(&self, message: &str) -> ParseErrorCause {
        Self::error_at(self.previous(), self.previous_source_loc(), message)
    }

    fn error_from_peek(&self, message: &str) -> ParseErrorCause {
        Self::error_at(self.peek(), self.peek_source_loc(), message)
    }

    fn error_at(
        token: Option<&Token<'a>>,
        loc: SourceLoc,
        message: &str,
    ) -> ParseErrorCause {
        if let Some(token) = token {
            ParseErrorCause::new_with_location(loc, token.lexeme, message)
        } else {
            ParseErrorCause::new(loc, message)
        }
    }

''')], None),
    ('arguments-helper', [(P, FCALL, '''    fn finish_call(
        &mut self,
        expr: Expr,
        loc: SourceLoc,
    ) -> Result<Expr, ParseErrorCause> {
        let args = if self.check(TokenType::RightParen) {
            Vec::new()
        } else {
            self.arguments()?
        };
        self.consume(TokenType::RightParen, "Expect ')' after arguments.")?;

        Ok(Expr::Call(Box::new(expr), args, loc))
    }

    fn arguments(&mut self) -> Result<Vec<Expr>, ParseErrorCause> {
        let mut args = vec![self.expression()?];
        while self.match_token(TokenType::Comma) {
            if args.len() >= 255 {
                return Err(self.error_from_peek(
                    "Cannot have more than 255 arguments.",
                ));
            }
            args.push(self.expression()?);
        }
        Ok(args)
    }

'''), (P, FCALLN, '''    fn finish_call_without_parens(
        &mut self,
        expr: Expr,
        loc: SourceLoc,
    ) -> Result<Expr, ParseErrorCause> {
        let args = self.arguments()?;
        Ok(Expr::Call(Box::new(expr), args, loc))
    }

''')], None),
    ('args-do-while', [(P, FCALLN, '''    fn finish_call_without_parens(
        &mut self,
        expr: Expr,
        loc: SourceLoc,
    ) -> Result<Expr, ParseErrorCause> {
        let mut args = Vec::new();
        let mut more = true;
        while more {
            if args.len() > 254 {
                return Err(self
                    .error_from_peek("Cannot have more than 255 arguments."));
            }
            let arg = self.expression()?;
            args.push(arg);
            more = self.match_token(TokenType::Comma);
        }

        Ok(Expr::Call(Box::new(expr), args, loc))
    }

''')], None),
    ('params-helper', [(P, FUND, FUND.replace(cut('        let mut parameters = Vec::new();\n', '        self.consume(TokenType::RightParen, "Expect \')\' after parameters.")'),
        '        let parameters = self.parameter_list()?;\n').rstrip() + '''

    fn parameter_list(&mut self) -> Result<Vec<Parameter>, ParseErrorCause> {
        let mut parameters = Vec::new();
        if self.check(TokenType::RightParen) {
            return Ok(parameters);
        }
        loop {
            let (name, loc) = self.consume_identifier(
                "Expect identifier in function parameters.",
            )?;
            if parameters.len() == 255 {
                return Err(ParseErrorCause::new_with_location(
                    loc,
                    &name,
                    "Cannot have more than 255 parameters.",
                ));
            }
            parameters.push(Parameter::new(name, loc));
            if !self.match_token(TokenType::Comma) {
                return Ok(parameters);
            }
        }
    }

''')], None),
    ('sync-matches', [(P, SYNC, '''    fn synchronize(&mut self) {
        self.advance();

        while !self.is_at_end() && !self.at_statement_start() {
            self.advance();
        }
    }

    fn at_statement_start(&self) -> bool {
        self.check_any_of(&[
            TokenType::Class,
            TokenType::Fun,
            TokenType::Var,
            TokenType::For,
            TokenType::If,
            TokenType::While,
            TokenType::Print,
            TokenType::Return,
        ])
    }
''')], None),
    ('sync-loop', [(P, SYNC, '''    fn synchronize(&mut self) {
        loop {
            self.advance();
            let next = match self.peek() {
                None => return,
                Some(token) => token.token_type,
            };
            if matches!(
                next,
                TokenType::Eof
                    | TokenType::Class
                    | TokenType::Fun
                    | TokenType::Var
                    | TokenType::For
                    | TokenType::If
                    | TokenType::While
                    | TokenType::Print
                    | TokenType::Return
            ) {
                break;
            }
        }
    }
''')], None),
    ('if-branch-helper', [(P, IFST, '''    fn finish_if_statement(&mut self) -> Result<Stmt, ParseErrorCause> {
        self.consume_any_of(
            &[TokenType::LeftParen, TokenType::LeftParenAbutting],
            "Expect '(' after if.",
        )?;
        let condition = self.expression()?;
        self.consume(TokenType::RightParen, "Expect ')' after if condition.")?;

        let then_stmt = self.branch("Expect '{' or indent before if body.")?;
        let mut else_stmt = None;
        if self.match_token(TokenType::Else) {
            else_stmt = Some(Box::new(
                self.branch("Expect '{' or indent before else body.")?,
            ));
        }

        Ok(Stmt::If(condition, Box::new(then_stmt), else_stmt))
    }

    fn branch(&mut self, message: &str) -> Result<Stmt, ParseErrorCause> {
        if !self.check_any_of(&[TokenType::Terminator, TokenType::LeftBrace]) {
            return self.statement();
        }
        let end = self.consume_begin_block(message)?;
        Ok(Stmt::Block(self.finish_block(end)?))
    }

''')], None),
    ('if-else-map', [(P, IFST, IFST.replace('''            self.finish_block(end_block).map(Stmt::Block)?
        } else {
            self.statement()?
        };

        let else_stmt''', '''            let statements = self.finish_block(end_block)?;
            Stmt::Block(statements)
        } else {
            self.statement()?
        };
        let then_stmt = Box::new(then_stmt);

        let else_stmt''').replace('Box::new(then_stmt), else_stmt)', 'then_stmt, else_stmt)'))], None),
    ('for-vec', [(P, FORST, FORST.replace('''        match initializer {
            None => Ok(while_loop),
            Some(init_stmt) => Ok(Stmt::Block(vec![init_stmt, while_loop])),
        }
''', '''        let init_stmt = match initializer {
            Some(init_stmt) => init_stmt,
            None => return Ok(while_loop),
        };
        let mut statements = Vec::with_capacity(2);
        statements.push(init_stmt);
        statements.push(while_loop);

        Ok(Stmt::Block(statements))
'''))], None),
    ('for-if-let', [(P, FORST, FORST.replace('''        let while_loop = match increment {
            None => Stmt::While(condition, Box::new(loop_body)),
            Some(inc_expr) => {
                Stmt::WhileIncrement(condition, Box::new(loop_body), inc_expr)
            }
        };
''', '''        let body = Box::new(loop_body);
        let while_loop = if let Some(inc_expr) = increment {
            Stmt::WhileIncrement(condition, body, inc_expr)
        } else {
            Stmt::While(condition, body)
        };
''').replace('''        match initializer {
            None => Ok(while_loop),
            Some(init_stmt) => Ok(Stmt::Block(vec![init_stmt, while_loop])),
        }
''', '''        Ok(match initializer {
            None => while_loop,
            Some(init_stmt) => Stmt::Block(vec![init_stmt, while_loop]),
        })
'''))], None),
    ('statement-if-chain', [(P, STMT, '''    fn statement(&mut self) -> Result<Stmt, ParseErrorCause> {
        let loc = self.peek_source_loc();
        if self.match_token(TokenType::Break) {
            return self.finish_break_statement(loc);
        }
        if self.match_token(TokenType::Continue) {
            return self.finish_continue_statement(loc);
        }
        if self.match_token(TokenType::For) {
            return self.finish_for_statement();
        }
        if self.match_token(TokenType::If) {
            return self.finish_if_statement();
        }
        if self.match_token(TokenType::LeftBrace) {
            let statements = self.finish_block(TokenType::RightBrace)?;
            return Ok(Stmt::Block(statements));
        }
        if self.match_token(TokenType::Print) {
            return self.finish_print_statement();
        }
        if self.match_token(TokenType::Return) {
            return self.finish_return_statement(loc);
        }
        if self.match_token(TokenType::While) {
            return self.finish_while_statement();
        }
        self.expression_statement()
    }

''')], None),
    ('statement-peek-match', [(P, STMT, '''    fn statement(&mut self) -> Result<Stmt, ParseErrorCause> {
        let (token_type, loc) = match self.peek() {
            Some(token) => (token.token_type, SourceLoc::from(token)),
            None => return self.expression_statement(),
        };
        match token_type {
            TokenType::Break => {
                self.advance();
                self.finish_break_statement(loc)
            }
            TokenType::Continue => {
                self.advance();
                self.finish_continue_statement(loc)
            }
            TokenType::For => {
                self.advance();
                self.finish_for_statement()
            }
            TokenType::If => {
                self.advance();
                self.finish_if_statement()
            }
            TokenType::LeftBrace => {
                self.advance();
                self.finish_block(TokenType::RightBrace).map(Stmt::Block)
            }
            TokenType::Print => {
                self.advance();
                self.finish_print_statement()
            }
            TokenType::Return => {
                self.advance();
                self.finish_return_statement(loc)
            }
            TokenType::While => {
                self.advance();
                self.finish_while_statement()
            }
            _ => self.expression_statement(),
        }
    }

''')], None),
    ('assign-early', [(P, ASSIGN, '''    fn assignment(&mut self) -> Result<Expr, ParseErrorCause> {
        let target = self.assignment_target()?;
        let loc = match self.matches(&[TokenType::Equal]) {
            None => return Ok(target),
            Some((_, loc)) => loc,
        };
        let value = Box::new(self.assignment()?);
        match target {
            Expr::Get(object, name, _) => {
                Ok(Expr::Set(object, name, value, loc))
            }
            Expr::GetIndex(array, index, _) => {
                Ok(Expr::SetIndex(array, index, value, loc))
            }
            Expr::Variable(id, _, _) if id != "this" => Ok(Expr::Assign(
                id,
                Cell::new(VarLoc::placeholder()),
                value,
                loc,
            )),
            _ => Err(ParseErrorCause::new_with_location(
                loc,
                "=",
                "Invalid assignment target.",
            )),
        }
    }

    fn assignment_target(&mut self) -> Result<Expr, ParseErrorCause> {
        if !self.match_token(TokenType::Indent) {
            return self.or();
        }
        let expr = self.or()?;
        self.match_token(TokenType::Terminator);
        self.consume(
            TokenType::Outdent,
            "Expect outdent after indented expression.",
        )?;
        Ok(expr)
    }

''')], None),
    ('class-if-let', [(P, CLASS, CLASS.replace(cut('            match self.finish_fun_declaration()? {', '        self.consume_end_block(end_block, " after class method body.")'), '''            let statement = self.finish_fun_declaration()?;
            if let Stmt::Fun(mut fun_decl) = statement {
                let fun_type = match (is_class_method, fun_decl.name.as_str()) {
                    (true, _) => FunctionType::ClassMethod,
                    (false, "init") => FunctionType::Initializer,
                    (false, _) => FunctionType::Method,
                };
                fun_decl.fun_def.fun_type = fun_type;
                methods.push(fun_decl);
            } else {
                return Err(
                    self.error_from_last("Expect method definition in class.")
                );
            }
        }
'''))], None),
    ('class-helpers', [(P, CLASS, CLASS.replace(cut('        // Optional superclass.\n', '        let end_block =\n            self.consume_begin_block("Expect \'{\' or indent after class name.")'), '''        let superclass = self.superclass()?;

''').rstrip() + '''

    fn superclass(&mut self) -> Result<Option<Box<Expr>>, ParseErrorCause> {
        if !self.match_token(TokenType::Less) {
            return Ok(None);
        }
        let (name, loc) = self.consume_identifier("Expect superclass name.")?;
        Ok(Some(Box::new(Expr::Variable(
            name,
            Cell::new(VarLoc::placeholder()),
            loc,
        ))))
    }

''')], None),
    ('var-if', [(P, VAR, VAR.replace(cut('        let (expr, needs_terminator) = match', '        if for_loop_init {'), '''        let mut expr = Expr::LiteralNil;
        let mut needs_terminator = true;
        if self.match_token(TokenType::Equal) {
            self.match_token(TokenType::Terminator);
            needs_terminator = !self
                .check_any_of(&[TokenType::Indent, TokenType::LeftBrace]);
            expr = self.expression()?;
        }

'''))], None),
    ('var-terminator-helper', [(P, VAR, VAR.replace(cut('        if for_loop_init {', '        Ok(Stmt::Var('), '''        match (for_loop_init, needs_terminator) {
            (true, _) => self.consume(
                TokenType::Semicolon,
                "Expect ';' after var declaration.",
            )?,
            (false, true) => self.consume(
                TokenType::Terminator,
                "Expect newline after var declaration.",
            )?,
            (false, false) => {
                let _ = self.match_token(TokenType::Terminator);
            }
        }

'''))], None),
    ('map-key-helper', [(P, MAP, MAP.replace(cut('            let token = self.peek().expect("check() ensures this");', '            self.advance();\n\n            self.consume(tt::Colon'), '''            let (key, key_loc) = self.map_key();
            let key = key.as_str();
''').replace('map.insert(key.to_owned(), value)', 'map.insert(String::from(key), value)').rstrip() + '''

    fn map_key(&self) -> (String, SourceLoc) {
        let token = self.peek().expect("a key");
        let text = if token.token_type == TokenType::String {
            token.string_literal.expect("a string")
        } else {
            token.lexeme
        };
        (text.to_string(), SourceLoc::from(token))
    }

''')], None),
    ('map-at-key', [(P, MAP, MAP.replace('''        while self.check_any_of(&[tt::Identifier, tt::String])
            && self.check_next(tt::Colon)
        {''', '''        loop {
            let at_key = (self.check(tt::Identifier) || self.check(tt::String))
                && self.check_next(tt::Colon);
            if !at_key {
                return Ok(map);
            }'''))], None),
    ('map-separator', [(P, MAP, MAP.replace(cut('            if self.check(tt::Comma)\n', '        }\n\n        Ok(map)'), '''            let another = if self.check(tt::Comma) {
                true
            } else if self.check(tt::Terminator) {
                self.check_next(tt::RightBrace)
                    || self.check_next_any_of(&[tt::Identifier, tt::String])
                        && self.check_next_next(tt::Colon)
            } else {
                false
            };
            if !another {
                break;
            }
            self.advance();
'''))], None),
    ('map-get-first', [(P, MAP, MAP.replace(cut('            if map.insert(', '            // Allow a terminator so'), '''            let previous = map.insert(key.to_owned(), value);
            match previous {
                None => {}
                Some(_) => {
                    return Err(ParseErrorCause::new_with_location(
                        key_loc,
                        key,
                        "Duplicate key in literal map.",
                    ))
                }
            }

'''))], None),
    ('block-loop', [(P, BLOCK, BLOCK.replace('''        while !self.check(end_block) && !self.is_at_end() {
            statements.push(self.declaration()?);
        }
''', '''        loop {
            if self.is_at_end() || self.check(end_block) {
                break;
            }
            let statement = self.declaration()?;
            statements.push(statement);
        }
'''))], None),
    ('loop-closure', [(P, LOOPB, '''    fn loop_body_statement(&mut self) -> Result<Stmt, ParseErrorCause> {
        self.within_loop(|parser| {
            if parser
                .check_any_of(&[TokenType::Terminator, TokenType::LeftBrace])
            {
                let end_block = parser.consume_begin_block(
                    "Expect '{' or indent before loop body.",
                )?;
                Ok(Stmt::Block(parser.finish_block(end_block)?))
            } else {
                parser.statement()
            }
        })
    }

    fn within_loop<T>(
        &mut self,
        body: impl FnOnce(&mut Self) -> Result<T, ParseErrorCause>,
    ) -> Result<T, ParseErrorCause> {
        self.in_loops += 1;
        let result = body(self);
        self.in_loops -= 1;
        result
    }

''')], None),
    ('loop-save', [(P, LOOPB, LOOPB.replace('''        self.in_loops =
            self.in_loops.checked_add(1).expect("Too many nested loops");
''', '''        let outer = self.in_loops;
        self.in_loops = outer + 1;
''').replace('''        self.in_loops -= 1;
''', '''        self.in_loops = outer;
'''))], None),
    ('parse-if-let', [(P, PARSE, '''    pub fn parse(&mut self) -> Result<Vec<Stmt>, ParseError> {
        let mut statements = Vec::new();
        let mut errors = Vec::new();
        loop {
            if self.is_at_end() {
                break;
            }
            let declaration = self.declaration();
            if let Ok(statement) = declaration {
                statements.push(statement);
                continue;
            }
            errors.extend(declaration.err());
            self.synchronize();
        }
        if let Err(error) = self.consume(TokenType::Eof, "Expected end of file")
        {
            errors.push(error);
        }
        if !errors.is_empty() {
            return Err(ParseError::new(errors));
        }
        Ok(statements)
    }

''')], None),
    ('parse-map-err', [(P, PARSE, '''    pub fn parse(&mut self) -> Result<Vec<Stmt>, ParseError> {
        let mut statements = Vec::new();
        let mut errors = Vec::new();
        while !self.is_at_end() {
            self.declaration()
                .map(|statement| statements.push(statement))
                .unwrap_or_else(|error| {
                    errors.push(error);
                    self.synchronize();
                });
        }
        if let Err(error) = self.consume(TokenType::Eof, "Expected end of file")
        {
            errors.push(error);
        }
        if errors.is_empty() {
            Ok(statements)
        } else {
            Err(ParseError::new(errors))
        }
    }

''')], None),
    ('decl-match', [(P, DECL, '''    fn declaration(&mut self) -> Result<Stmt, ParseErrorCause> {
        match self.peek().map(|token| token.token_type) {
            Some(TokenType::Class) => {
                self.advance();
                self.finish_class_declaration()
            }
            Some(TokenType::Var) => {
                self.advance();
                self.finish_var_declaration(false)
            }
            Some(TokenType::Fun) if self.check_next(TokenType::Identifier) => {
                self.advance();
                self.finish_fun_declaration()
            }
            _ => self.statement(),
        }
    }

''')], None),
    ('begin-block-if', [(P, BEGIN, '''    fn consume_begin_block(
        &mut self,
        error_message: &str,
    ) -> Result<TokenType, ParseErrorCause> {
        if self.match_token(TokenType::LeftBrace) {
            return Ok(TokenType::RightBrace);
        }
        self.consume(TokenType::Terminator, error_message)?;
        self.consume(TokenType::Indent, "Expect indent to begin block")
            .map(|_| TokenType::Outdent)
    }

''')], None),
    ('end-block-if', [(P, END, '''    fn consume_end_block(
        &mut self,
        end_block: TokenType,
        after_error_message: &str,
    ) -> Result<(), ParseErrorCause> {
        if self.match_token(end_block) {
            return Ok(());
        }
        let token_str = if end_block == TokenType::Outdent {
            "outdent"
        } else {
            "'}'"
        };
        let message = format!("Expect {}{}", token_str, after_error_message);
        Err(self.error_from_peek(&message))
    }

''')], None),
    ('or-helper', [(P, OR, '''    fn or(&mut self) -> Result<Expr, ParseErrorCause> {
        let mut expr = self.and()?;
        loop {
            if !self.match_token(TokenType::Or) {
                break Ok(expr);
            }
            let right = self.and()?;
            expr = Self::logical(expr, LogicalOperator::Or, right);
        }
    }

    fn logical(left: Expr, operator: LogicalOperator, right: Expr) -> Expr {
        Expr::Logical(Box::new(left), operator, Box::new(right))
    }

''')], None),
    ('array-first', [(P, ARRAY, '''                let mut elements = Vec::new();
                while !self.check(TokenType::RightBracket) {
                    elements.push(self.expression()?);

                    if !self.match_token(TokenType::Comma) {
                        break;
                    }
                }
''')], None),
    ('unary-if', [(P, UNARY, '''    fn unary(&mut self) -> Result<Expr, ParseErrorCause> {
        let unary_op = if self.check(TokenType::Bang) {
            UnaryOperator::Not
        } else if self.check(TokenType::Minus) {
            UnaryOperator::Minus
        } else {
            return self.call();
        };
        let loc = self.peek_source_loc();
        self.advance();
        self.unary()
            .map(|right| Expr::Unary(unary_op, Box::new(right), loc))
    }

''')], None),
    ('call-if-chain', [(P, CALLF, '''    fn call(&mut self) -> Result<Expr, ParseErrorCause> {
        let mut expr = self.primary()?;

        loop {
            let loc = self.peek_source_loc();
            expr = if self.match_token(TokenType::Dot) {
                let (id, _) = self
                    .consume_identifier("Expect property name after '.'.")?;
                Expr::Get(Box::new(expr), id, loc)
            } else if self.match_token(TokenType::LeftParenAbutting) {
                self.finish_call(expr, loc)?
            } else if self.match_token(TokenType::LeftBracket) {
                self.finish_get_index(expr, loc)?
            } else if self.check_any_of(&CALL_PRIMARY_TOKENS) {
                self.finish_call_without_parens(expr, loc)?
            } else {
                return Ok(expr);
            };
        }
    }

''')], None),
    ('exprst-flags', [(P, EXPRST, EXPRST.replace(cut('        if !(self.allow_trailing_expression', '            self.consume(\n                TokenType::Terminator,\n                "Expect newline after expression.",'), '''        let may_omit = self.allow_trailing_expression && self.is_at_end();
        if !may_omit {
'''))], None),
    ('advance-saturating', [(P, '''        if self.is_at_end() {
            return;
        }
        self.current += 1;
''', '''        if !self.is_at_end() {
            self.current = self.current.saturating_add(1);
        }
''')], None),
    ('at-end-matches', [(P, '''        match self.peek() {
            None => true,
            Some(token) => token.token_type == TokenType::Eof,
        }
    }

    fn consume(''', '''        self.peek().is_none_or(|t| matches!(t.token_type, TokenType::Eof))
    }

    fn consume(''')], None),
    ('loc-or-else', [(P, '''        match self.peek() {
            Some(token) => SourceLoc::from(token),
            None => {
                // We're at the end of file, so use the line of the last token.
                match self.previous() {
                    Some(token) => SourceLoc::from(token),
                    // If there was no last token, this is an edge case where
                    // there were no tokens.
                    None => SourceLoc::default(),
                }
            }
        }
''', '''        self.peek()
            .or_else(|| self.previous())
            .map(SourceLoc::from)
            .unwrap_or_default()
''')], None),
    ('primary-string-helper', [(P, cut('            TokenType::String => match self.peek() {', '            TokenType::Identifier | TokenType::This => match'), '''            TokenType::String => {
                if self.check_next(TokenType::Colon) {
                    already_advanced = true;
                    self.literal_map().map(Expr::LiteralMap)?
                } else {
                    let text = self
                        .peek()
                        .and_then(|token| token.string_literal)
                        .expect("a string literal");
                    Expr::LiteralString(text.to_string())
                }
            }
''')], None),
    ('primary-guard', [(P, cut('            TokenType::Identifier | TokenType::This => match', '            TokenType::Fun => match self.peek() {'), '''            TokenType::Identifier | TokenType::This
                if self.check_next(TokenType::Colon) =>
            {
                already_advanced = true;
                Expr::LiteralMap(self.literal_map()?)
            }
            TokenType::Identifier | TokenType::This => {
                let token = self.peek().unwrap();
                Expr::Variable(
                    token.lexeme.to_string(),
                    Cell::new(VarLoc::placeholder()),
                    SourceLoc::new(token.line, token.column),
                )
            }
''')], None),
    ('number-unwrap', [(P, cut('            TokenType::Number => match self.peek() {', '            TokenType::String => match self.peek() {'), '''            TokenType::Number => {
                let token = self.peek().expect("a number");
                match token.float_literal {
                    Some(x) => Expr::LiteralNumber(x),
                    None => unreachable!("a number has a value"),
                }
            }
''')], None),
]
# BinaryOperator is Clone, not Copy: read it out of the table with clone()
EDITS[0] = (EDITS[0][0], [(P, EDITS[0][1][0][1], EDITS[0][1][0][2].replace('*operator,', 'operator.clone(),'))], None)
