R = 'src/resolver.rs'
LOOKUP = '''        let len = self.scopes.len();
        let mut i = len;
        while i > 0 {
            i -= 1;

            let scope = &self.scopes[i];
            match scope.get(identifier) {
                None => (),
                Some(resolve_state) => {
                    let distance = (len - 1 - i) as u16;

                    return Ok(VarLoc::new(
                        distance,
                        resolve_state.slot_index as u8,
                    ));
                }
            }
        }
'''
BLOCK = '''                self.begin_scope();

                let mut result = Ok(());
                for statement in statements.iter_mut() {
                    result = self.resolve_statement(statement);
                    if result.is_err() {
                        break;
                    }
                }

                self.end_scope();

                result
'''
FUNBODY = '''        let mut result = Ok(());
        for parameter in &fun_def.parameters {
            result = self.define(&parameter.name, &parameter.source_loc);
            if result.is_err() {
                break;
            }
        }
        if result.is_ok() {
            for body_statement in &mut fun_def.body {
                result = self.resolve_statement(body_statement);
                if result.is_err() {
                    break;
                }
            }
        }
        self.end_scope();
'''
RETURN = '''                match self.function_type {
                    FunctionType::Plain
                    | FunctionType::Initializer
                    | FunctionType::Method => (),
                    FunctionType::NoFunction => {
                        return Err(ParseErrorCause::new_with_location(
                            *loc,
                            "return",
                            "Cannot return from top-level code.",
                        ))
                    }
                }
'''
ADECL = '''        if already_declared {
            if self.is_in_global_scope() {
                // Refer to the previously declared global.
                slot_index_cell.set(SlotIndex::new(slot_index as u8))
            } else {
                return Err(ParseErrorCause::new_with_location(
                    *loc,
                    identifier,
                    "Variable with this name already declared in this scope.",
                ));
            }
        } else {
            // Refer to the previously declared global.
            slot_index_cell.set(SlotIndex::new(slot_index as u8));
        }

        Ok(())
'''
DENTRY = '''        scope
            .entry(identifier.to_owned())
            .and_modify(|state| match state.defined_state {
                UndefinedVar | DeclaredVar => state.defined_state = DefinedVar,
                DefinedVar => already_defined = true,
            })
            .or_insert(var_resolve_state);
'''
FWD = '''        match scope.entry(identifier.to_owned()) {
            entry @ Entry::Vacant(_) => entry.or_insert(var_resolve_state),
'''
SUPER = '''                match self.class_type {
                    ClassType::PlainClass | ClassType::Subclass => (),
                    ClassType::NoClass => {
                        return Err(ParseErrorCause::new_with_location(
                            *loc,
                            "super",
                            "Cannot use 'super' outside of a class.",
                        ));
                    }
                }

                match self.class_type {
                    ClassType::Subclass => (),
                    _ => {
'''
EDITS = [
    # --- bugs
    ('skip-else', [(R, "                if let Some(else_stmt) = else_stmt_opt {\n                    self.resolve_statement(else_stmt)?;\n                }\n", "                let _ = else_stmt_opt;\n")], 'R01'),
    ('skip-increment', [(R, "                self.resolve_expression(increment)?;\n", "                let _ = increment;\n")], 'R01'),
    ('skip-map-values', [(R, "for (_, value) in map.iter_mut() {\n                    self.resolve_expression(value)?;\n                }", "let _ = map;")], 'R01'),
    ('args-skip-first', [(R, "for argument in arguments.iter_mut() {", "for argument in arguments.iter_mut().skip(1) {")], 'R01'),
    ('array-take-255', [(R, "for element in elements.iter_mut() {", "for element in elements.iter_mut().take(255) {")], 'R01'),
    ('set-order', [(R, "                self.resolve_expression(object_expr)?;\n                self.resolve_expression(value_expr)?;", "                self.resolve_expression(value_expr)?;\n                self.resolve_expression(object_expr)?;")], 'R01'),
    ('while-order', [(R, "            Stmt::While(condition, body) => {\n                self.resolve_expression(condition)?;\n                self.resolve_statement(body)?;", "            Stmt::While(condition, body) => {\n                self.resolve_statement(body)?;\n                self.resolve_expression(condition)?;")], 'R01'),
    ('assign-no-set', [(R, "                dist_cell.set(var_loc);\n\n                Ok(())\n            }\n            Expr::Binary", "                if var_loc.index() > 0 { dist_cell.set(var_loc); }\n\n                Ok(())\n            }\n            Expr::Binary")], 'R01'),
    ('super-swallow', [(R, "                self.resolve_expression(super_expr)?;\n", "                if self.scopes.len() > 1 { self.resolve_expression(super_expr)?; }\n")], 'R01'),
    ('method-skip-after-init', [(R, "if result.is_err() {\n                    break;\n                }\n            }\n        }\n\n        // \"this\"", "if result.is_err() || method.name == \"init\" {\n                    break;\n                }\n            }\n        }\n\n        // \"this\"")], 'R01'),
    ('lookup-skip-global', [(R, "        while i > 0 {\n            i -= 1;\n", "        while i > 1 {\n            i -= 1;\n")], 'R02'),
    ('lookup-outermost', [(R, LOOKUP, LOOKUP.replace("let mut i = len;\n        while i > 0 {\n            i -= 1;\n", "let mut i = 0;\n        while i < len {\n            i += 1;\n            let i = i - 1;\n"))], 'R02'),
    ('distance-trunc', [(R, "let distance = (len - 1 - i) as u16;", "let distance = (len - 1 - i) as u8 as u16;")], 'R02'),
    ('distance-plus', [(R, "let distance = (len - 1 - i) as u16;", "let distance = (len - i) as u16;")], 'R02'),
    ('lookup-skip-undefined', [(R, "                None => (),\n                Some(resolve_state) => {\n                    let distance", "                Some(s) if s.defined_state == DeclaredVar => (),\n                None => (),\n                Some(resolve_state) => {\n                    let distance")], 'R02'),
    ('global-as-local', [(R, "Ok(VarLoc::new_global(distance, slot_index as u8))", "Ok(VarLoc::new(distance, slot_index as u8))")], None),
    ('forward-in-last', [(R, "let scope = self.scopes.first_mut()", "let scope = self.scopes.last_mut()")], 'R02'),
    ('forward-slot-one', [(R, "        let slot_index = scope.len();\n        let var_resolve_state = VarResolveState {\n            slot_index,\n            defined_state: UndefinedVar,", "        let slot_index = scope.len();\n        let var_resolve_state = VarResolveState {\n            slot_index: slot_index + 1,\n            defined_state: UndefinedVar,")], 'R03'),
    ('forward-defined', [(R, "            slot_index,\n            defined_state: UndefinedVar,", "            slot_index,\n            defined_state: DefinedVar,")], 'R06'),
    ('declare-newslot', [(R, "                    UndefinedVar => {\n                        state.defined_state = DeclaredVar;\n                        slot_index = state.slot_index;", "                    UndefinedVar => {\n                        state.defined_state = DeclaredVar;")], 'R03'),
    ('declare-no-limit', [(R, "            defined_state: DeclaredVar,\n        };\n        ensure_scope_index_limit(scope.len(), identifier, loc)?;", "            defined_state: DeclaredVar,\n        };")], 'R03'),
    ('define-no-limit', [(R, "            defined_state: DefinedVar,\n        };\n        ensure_scope_index_limit(scope.len(), identifier, loc)?;", "            defined_state: DefinedVar,\n        };")], 'R03'),
    ('forward-no-limit', [(R, "            defined_state: UndefinedVar,\n        };\n        ensure_scope_index_limit(scope.len(), identifier, loc)?;", "            defined_state: UndefinedVar,\n        };")], 'R03'),
    ('limit-off-by-one', [(R, "if new_scope_len > SLOT_INDEX_MAX_USIZE {", "if new_scope_len > SLOT_INDEX_MAX_USIZE + 1 {")], 'R03'),
    ('declare-slot-zero-cell', [(R, "            if self.is_in_global_scope() {\n                // Refer to the previously declared global.\n                slot_index_cell.set(SlotIndex::new(slot_index as u8))", "            if self.is_in_global_scope() {\n")], 'R03'),
    ('block-leak', [(R, BLOCK, BLOCK.replace("result = self.resolve_statement(statement);\n                    if result.is_err() {\n                        break;\n                    }", "self.resolve_statement(statement)?;").replace("let mut result", "let result"))], 'R04'),
    ('fun-leak', [(R, FUNBODY, FUNBODY.replace("            result = self.define(&parameter.name, &parameter.source_loc);\n            if result.is_err() {\n                break;\n            }\n", "            self.define(&parameter.name, &parameter.source_loc)?;\n"))], 'R04'),
    ('fun-no-scope-noparams', [(R, "        self.begin_scope();\n        let mut result = Ok(());\n        for parameter", "        let scoped = !fun_def.parameters.is_empty() || !fun_def.body.is_empty();\n        if scoped { self.begin_scope(); }\n        let mut result = Ok(());\n        for parameter"), (R, "        self.end_scope();\n\n        // Restore previous function type.", "        if scoped { self.end_scope(); }\n\n        // Restore previous function type.")], None),
    ('super-scope-leak', [(R, "        if class_def.superclass.is_some() {\n            self.end_scope();", "        if class_def.superclass.is_some() && result.is_ok() {\n            self.end_scope();")], 'R04'),
    ('block-scope-empty', [(R, "            Stmt::Block(statements) => {\n                self.begin_scope();", "            Stmt::Block(statements) => {\n                if statements.len() > 1 { self.begin_scope(); }"), (R, "                self.end_scope();\n\n                result", "                if statements.len() > 1 { self.end_scope(); }\n\n                result")], 'R04'),
    ('fun-params-own-scope', [(R, "        if result.is_ok() {\n            for body_statement", "        self.begin_scope();\n        if result.is_ok() {\n            for body_statement"), (R, "        self.end_scope();\n\n        // Restore previous function type.", "        self.end_scope();\n        self.end_scope();\n\n        // Restore previous function type.")], 'R04'),
    ('fun-type-not-restored', [(R, "        self.function_type = enclosing_func_type;\n\n        result", "        if result.is_ok() {\n            self.function_type = enclosing_func_type;\n        }\n\n        result")], 'R07'),
    ('fun-type-nofun', [(R, "        self.function_type = enclosing_func_type;\n", "        let _ = enclosing_func_type;\n        self.function_type = FunctionType::NoFunction;\n")], 'R05'),
    ('class-type-no-restore', [(R, "                let result = self.resolve_class(class_def);\n", "                self.resolve_class(class_def)?;\n                let result = Ok(());\n")], 'R07'),
    ('class-type-noclass', [(R, "                self.class_type = enclosing_class_type;\n", "                let _ = enclosing_class_type;\n                self.class_type = ClassType::NoClass;\n")], 'R05'),
    ('return-in-method', [(R, RETURN, RETURN.replace("                    FunctionType::Plain\n                    | FunctionType::Initializer\n                    | FunctionType::Method => (),\n                    FunctionType::NoFunction", "                    FunctionType::Plain\n                    | FunctionType::Initializer\n                    | FunctionType::Method => (),\n                    FunctionType::NoFunction if self.scopes.len() > 1 => (),\n                    FunctionType::NoFunction"))], 'R05'),
    ('init-return', [(R, "                        Expr::LiteralNil => (),\n                        _ =>", "                        Expr::LiteralNil | Expr::Grouping(_) => (),\n                        _ =>")], 'R05'),
    ('init-nested', [(R, "let fun_type = if method.name == \"init\" {", "let fun_type = if method.name == \"init\" && self.function_type == FunctionType::NoFunction {")], 'R05'),
    ('super-plain', [(R, "                    ClassType::Subclass => (),\n                    _ => {", "                    ClassType::Subclass => (),\n                    ClassType::PlainClass if self.function_type == FunctionType::Initializer => (),\n                    _ => {")], 'R05'),
    ('this-in-fun', [(R, 'if identifier == "this" {', 'if identifier == "this" && self.function_type == FunctionType::NoFunction {')], 'R05'),
    ('fun-expr-type', [(R, "                self.resolve_function(fun_def, FunctionType::Plain)\n            }\n            Expr::Get(", "                self.resolve_function(fun_def, self.function_type)\n            }\n            Expr::Get(")], 'R05'),
    ('redeclare-fun', [(R, "        if already_defined && !self.is_in_global_scope() {", "        if already_defined && self.scopes.len() > 2 {")], 'R06'),
    ('redeclare-declared', [(R, "                    DeclaredVar | DefinedVar => {\n                        already_declared = true;", "                    DeclaredVar | DefinedVar => {\n                        already_declared = state.slot_index > 0;")], 'R06'),
    ('own-init-any-scope', [(R, "let scope = self.scopes.last().expect(", "let scope = self.scopes.first().expect(")], 'R06'),
    ('own-init-nonglobal', [(R, "                                DeclaredVar => {\n                                    return", "                                DeclaredVar if self.scopes.len() == 1 => (),\n                                DeclaredVar => {\n                                    return")], 'R06'),
    ('inherit-self-case', [(R, "if *id == class_def.name {", "if *id == class_def.name && class_def.methods.is_empty() {")], 'R06'),
    ('param-dup-ok', [(R, "            result = self.define(&parameter.name, &parameter.source_loc);\n            if result.is_err() {\n                break;\n            }\n        }\n        if result.is_ok()", "            result = self.define(&parameter.name, &parameter.source_loc);\n        }\n        if result.is_ok()")], 'R06'),
    ('var-left-declared', [(R, "                // Even if the initializer is invalid, we're past it now.\n                self.define(identifier, loc)?;\n\n                result", "                if result.is_err() { return result; }\n                self.define(identifier, loc)?;\n\n                result")], 'R07'),
    ('resolve-stop-first', [(R, "                errors.push(error);\n", "                errors.push(error);\n                break;\n")], 'R08'),
    ('resolve-dedup', [(R, "                errors.push(error);\n", "                if errors.last().map_or(true, |e: &ParseErrorCause| e.message != error.message) { errors.push(error); }\n")], 'R08'),
    ('resolve-rev', [(R, "            Err(ParseError::new(errors))", "            errors.reverse();\n            Err(ParseError::new(errors))")], 'R08'),
    ('loc-fun-name', [(R, "            result = self.define(&parameter.name, &parameter.source_loc);", "            result = self.define(&parameter.name, &fun_def.source_loc);")], 'R09'),
    ('loc-token', [(R, '                            "return",\n                            "Cannot return from', '                            "",\n                            "Cannot return from')], 'R09'),
    ('inherit-loc', [(R, "                        return Err(ParseErrorCause::new_with_location(\n                            *loc,\n                            id,", "                        return Err(ParseErrorCause::new_with_location(\n                            class_def.source_loc,\n                            id,")], 'R09'),
    # --- refactorings
    ('r-lookup-rev', [(R, LOOKUP, '''        let len = self.scopes.len();
        for (distance, scope) in self.scopes.iter().rev().enumerate() {
            if let Some(resolve_state) = scope.get(identifier) {
                return Ok(VarLoc::new(
                    distance as u16,
                    resolve_state.slot_index as u8,
                ));
            }
        }
''')], None),
    ('r-lookup-range', [(R, LOOKUP, '''        let len = self.scopes.len();
        for i in (0..len).rev() {
            if let Some(resolve_state) = self.scopes[i].get(identifier) {
                let distance = (len - 1 - i) as u16;
                return Ok(VarLoc::new(distance, resolve_state.slot_index as u8));
            }
        }
''')], None),
    ('r-lookup-contains', [(R, LOOKUP, LOOKUP.replace('''            match scope.get(identifier) {
                None => (),
                Some(resolve_state) => {
                    let distance = (len - 1 - i) as u16;

                    return Ok(VarLoc::new(
                        distance,
                        resolve_state.slot_index as u8,
                    ));
                }
            }
''', '''            if !scope.contains_key(identifier) {
                continue;
            }
            let distance = (len - 1 - i) as u16;
            let slot = scope[identifier].slot_index as u8;
            return Ok(VarLoc::new(distance, slot));
'''))], None),
    ('r-block-helper', [(R, BLOCK, '''                self.begin_scope();
                let result = self.resolve_statements(statements);
                self.end_scope();

                result
'''), (R, "    fn resolve_statement(", '''    fn resolve_statements(&mut self, statements: &mut [Stmt]) -> Result<(), ParseErrorCause> {
        for statement in statements.iter_mut() {
            self.resolve_statement(statement)?;
        }
        Ok(())
    }

    fn resolve_statement(''')], None),
    ('r-fun-helper', [(R, FUNBODY, '''        let result = self.resolve_body(fun_def);
        self.end_scope();
'''), (R, "    fn resolve_statement(", '''    fn resolve_body(&mut self, fun_def: &mut FunctionDefinition) -> Result<(), ParseErrorCause> {
        for parameter in fun_def.parameters.iter() {
            self.define(&parameter.name, &parameter.source_loc)?;
        }
        for s in fun_def.body.iter_mut() {
            self.resolve_statement(s)?;
        }
        Ok(())
    }

    fn resolve_statement(''')], None),
    ('r-try-for-each', [(R, BLOCK, '''                self.begin_scope();
                let result = statements
                    .iter_mut()
                    .try_for_each(|statement| self.resolve_statement(statement));
                self.end_scope();

                result
''')], None),
    ('r-with-scope', [(R, BLOCK, '''                self.with_scope(|resolver| {
                    for statement in statements.iter_mut() {
                        resolver.resolve_statement(statement)?;
                    }
                    Ok(())
                })
'''), (R, "    fn resolve_statement(", '''    fn with_scope<F>(&mut self, f: F) -> Result<(), ParseErrorCause>
    where
        F: FnOnce(&mut Self) -> Result<(), ParseErrorCause>,
    {
        self.begin_scope();
        let result = f(self);
        self.end_scope();
        result
    }

    fn resolve_statement(''')], None),
    ('r-return-if', [(R, RETURN, '''                if self.function_type == FunctionType::NoFunction {
                    return Err(ParseErrorCause::new_with_location(
                        *loc,
                        "return",
                        "Cannot return from top-level code.",
                    ));
                }
''')], None),
    ('r-return-matches', [(R, RETURN, '''                if matches!(self.function_type, FunctionType::NoFunction) {
                    return Err(ParseErrorCause::new_with_location(
                        *loc,
                        "return",
                        "Cannot return from top-level code.",
                    ));
                }
''')], None),
    ('r-declared-restructure', [(R, ADECL, '''        if already_declared && !self.is_in_global_scope() {
            return Err(ParseErrorCause::new_with_location(
                *loc,
                identifier,
                "Variable with this name already declared in this scope.",
            ));
        }
        slot_index_cell.set(SlotIndex::new(slot_index as u8));
        Ok(())
''')], None),
    ('r-define-getmut', [(R, DENTRY, '''        match scope.get_mut(identifier) {
            Some(state) => {
                if state.defined_state == DefinedVar {
                    already_defined = true;
                } else {
                    state.defined_state = DefinedVar;
                }
            }
            None => {
                scope.insert(identifier.to_owned(), var_resolve_state);
            }
        }
''')], None),
    ('r-define-entry-match', [(R, DENTRY, '''        match scope.entry(identifier.to_owned()) {
            Entry::Occupied(mut e) => {
                let state = e.get_mut();
                match state.defined_state {
                    DefinedVar => already_defined = true,
                    _ => state.defined_state = DefinedVar,
                }
            }
            Entry::Vacant(e) => {
                e.insert(var_resolve_state);
            }
        }
''')], None),
    ('r-forward-insert', [(R, '''        match scope.entry(identifier.to_owned()) {
            entry @ Entry::Vacant(_) => entry.or_insert(var_resolve_state),
            Entry::Occupied(_) => panic!("Resolver::forward_reserve_global_var: I'm trying to forward reserve something that's already declared: {}", identifier),
        };
''', '''        let old = scope.insert(identifier.to_owned(), var_resolve_state);
        assert!(old.is_none());
'''), (R, 'use std::collections::hash_map::Entry;\n', '')], None),
    ('r-own-init-iflet', [(R, '''                    match scope.get(identifier) {
                        None => (),
                        Some(resolve_state) => {
                            match resolve_state.defined_state {
                                DefinedVar | UndefinedVar => (),
                                DeclaredVar => {
                                    return Err(ParseErrorCause::new_with_location(*loc, identifier, "Cannot read local variable in its own initializer."));
                                }
                            }
                        }
                    };
''', '''                    if scope.get(identifier).map(|s| s.defined_state) == Some(DeclaredVar) {
                        return Err(ParseErrorCause::new_with_location(*loc, identifier, "Cannot read local variable in its own initializer."));
                    }
''')], None),
    ('r-own-init-isome-and', [(R, '''                    match scope.get(identifier) {
                        None => (),
                        Some(resolve_state) => {
                            match resolve_state.defined_state {
                                DefinedVar | UndefinedVar => (),
                                DeclaredVar => {
                                    return Err(ParseErrorCause::new_with_location(*loc, identifier, "Cannot read local variable in its own initializer."));
                                }
                            }
                        }
                    };
''', '''                    if scope.get(identifier).is_some_and(|s| matches!(s.defined_state, DeclaredVar)) {
                        return Err(ParseErrorCause::new_with_location(*loc, identifier, "Cannot read local variable in its own initializer."));
                    }
''')], None),
    ('r-super-one-match', [(R, SUPER, '''                match self.class_type {
                    ClassType::Subclass => (),
                    ClassType::NoClass => {
                        return Err(ParseErrorCause::new_with_location(
                            *loc,
                            "super",
                            "Cannot use 'super' outside of a class.",
                        ));
                    }
                    ClassType::PlainClass => {
''')], None),
    ('r-class-replace', [(R, '''                let enclosing_class_type = self.class_type;
                self.class_type = if class_def.has_superclass() {
                    ClassType::Subclass
                } else {
                    ClassType::PlainClass
                };
''', '''                let class_type = match class_def.superclass {
                    Some(_) => ClassType::Subclass,
                    None => ClassType::PlainClass,
                };
                let enclosing_class_type = std::mem::replace(&mut self.class_type, class_type);
''')], None),
    ('r-fun-replace', [(R, '''        let enclosing_func_type = self.function_type;
        self.function_type = function_type;
''', '''        let enclosing_func_type = std::mem::replace(&mut self.function_type, function_type);
''')], None),
    ('r-resolve-collect', [(R, '''        let mut errors = Vec::new();
        for statement in statements.iter_mut() {
            let result = self.resolve_statement(statement);
            if let Err(error) = result {
                errors.push(error);
            }
        }
''', '''        let errors: Vec<_> = statements
            .iter_mut()
            .filter_map(|statement| self.resolve_statement(statement).err())
            .collect();
''')], None),
    ('r-resolve-while', [(R, '''        for statement in statements.iter_mut() {
            let result = self.resolve_statement(statement);
            if let Err(error) = result {
                errors.push(error);
            }
        }
''', '''        let mut i = 0;
        while i < statements.len() {
            match self.resolve_statement(&mut statements[i]) {
                Ok(()) => {}
                Err(error) => errors.push(error),
            }
            i += 1;
        }
''')], None),
    ('r-args-index', [(R, '''                for argument in arguments.iter_mut() {
                    self.resolve_expression(argument)?;
                }

                Ok(())
''', '''                for i in 0..arguments.len() {
                    self.resolve_expression(&mut arguments[i])?;
                }

                Ok(())
''')], None),
    ('r-exprs-helper', [(R, '''                for argument in arguments.iter_mut() {
                    self.resolve_expression(argument)?;
                }

                Ok(())
''', '''                self.resolve_expressions(arguments)
'''), (R, '''                for element in elements.iter_mut() {
                    self.resolve_expression(element)?;
                }

                Ok(())
''', '''                self.resolve_expressions(elements)
'''), (R, "    fn resolve_class(", '''    fn resolve_expressions(&mut self, expressions: &mut Vec<Expr>) -> Result<(), ParseErrorCause> {
        for expression in expressions {
            self.resolve_expression(expression)?;
        }
        Ok(())
    }

    fn resolve_class(''')], None),
    ('r-binary-and-then', [(R, '''                self.resolve_expression(left)?;
                self.resolve_expression(right)?;

                Ok(())
            }
            Expr::Call''', '''                self.resolve_expression(left)
                    .and_then(|()| self.resolve_expression(right))
            }
            Expr::Call''')], None),
    ('r-error-helper', [(R, '''            if self.is_in_global_scope() {
                // Refer to the previously declared global.
                slot_index_cell.set(SlotIndex::new(slot_index as u8))
            } else {
                return Err(ParseErrorCause::new_with_location(
                    *loc,
                    identifier,
                    "Variable with this name already declared in this scope.",
                ));
            }
''', '''            if self.is_in_global_scope() {
                // Refer to the previously declared global.
                slot_index_cell.set(SlotIndex::new(slot_index as u8))
            } else {
                return Err(already_declared_error(identifier, loc));
            }
'''), (R, '''            return Err(ParseErrorCause::new_with_location(
                *loc,
                identifier,
                "Variable with this name already declared in this scope.",
            ));
        }

        Ok(())
    }
}
''', '''            return Err(already_declared_error(identifier, loc));
        }

        Ok(())
    }
}

fn already_declared_error(identifier: &str, loc: &SourceLoc) -> ParseErrorCause {
    ParseErrorCause::new_with_location(
        *loc,
        identifier,
        "Variable with this name already declared in this scope.",
    )
}
''')], None),
    ('r-global-guard', [(R, "        self.scopes.len() == 1\n", "        self.scopes.len() <= 1\n")], None),
    ('r-methods-init-match', [(R, '''                let fun_type = if method.name == "init" {
                    FunctionType::Initializer
                } else {
                    FunctionType::Method
                };
''', '''                let fun_type = match method.name.as_str() {
                    "init" => FunctionType::Initializer,
                    _ => FunctionType::Method,
                };
''')], None),
    ('r-class-merge', [(R, '''        // Superclass.
        match &class_def.superclass {
            None => (),
            Some(boxed_expr) => {
                if let Expr::Variable(id, _, loc) = boxed_expr.deref() {
                    if *id == class_def.name {
                        return Err(ParseErrorCause::new_with_location(
                            *loc,
                            id,
                            "A class cannot inherit from itself.",
                        ));
                    }
                }
            }
        }
        match &mut class_def.superclass {
            None => (),
            Some(super_expr) => {
                self.resolve_expression(super_expr)?;
''', '''        // Superclass.
        match &mut class_def.superclass {
            None => (),
            Some(super_expr) => {
                if let Expr::Variable(id, _, loc) = &**super_expr {
                    if *id == class_def.name {
                        return Err(ParseErrorCause::new_with_location(
                            *loc,
                            id,
                            "A class cannot inherit from itself.",
                        ));
                    }
                }
                self.resolve_expression(super_expr)?;
'''), (R, 'use std::ops::Deref;\n', '')], None),
]
