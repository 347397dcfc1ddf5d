"""Refactorings of src/resolver.rs and friends that keep the behaviour: the checks must stay quiet (further ones are in mutants_resolver.py)."""
R, V, T, A = 'src/resolver.rs', 'src/environment.rs', 'src/error.rs', 'src/ast.rs'
from mutants_resolver import LOOKUP, BLOCK, FUNBODY, RETURN
src = open('/repo/src/resolver.rs').read()


def between(a, b, incl=False):
    i = src.index(a)
    j = src.index(b, i)
    return src[i:j + (len(b) if incl else 0)]


SUPERARM = between("            Expr::Super(super_dist_cell, _, loc) => {", "                let super_var_loc =")
OWN = between("                // Scope to drop the borrow of self.", "                let var_loc = self.resolve_local_variable(identifier, loc)?;\n                dist_cell.set(var_loc);\n\n                Ok(())\n            }\n        }\n    }")
THIS = between("            Expr::Variable(identifier, dist_cell, loc) => {", "                // Scope to drop the borrow")
CLASS = between("    fn resolve_class(", "    fn resolve_function(")
FUN = between("    fn resolve_function(", "    fn resolve_local_variable(")
DECL = between("    fn declare(", "    fn define(")
DEF = between("    fn define(", "impl Default for")
FWD = between("    fn forward_reserve_global_var(", "    fn declare(")
TOP = between("        let mut errors = Vec::new();", "    fn resolve_statement(")
VAR = between("            Stmt::Var(identifier, slot_index_cell, expr, loc) => {", "            Stmt::While(condition")
WHILES = between("            Stmt::While(condition, body) => {", "        }\n    }\n\n    fn resolve_expression(")
IF = between("            Stmt::If(condition, then_stmt", "            Stmt::Print(")
NEW = between("        let mut resolver = Resolver {", "    pub fn resolve(")
LIMIT = between("    if new_scope_len > SLOT_INDEX_MAX_USIZE {", "    }\n}\n", True)
BIN = between("            Expr::Binary(left, _, right, _) => {", "            Expr::Call(")
LOGI = between("            Expr::Logical(left, _, right) => {", "            Expr::Set(")
SETIDX = between("            Expr::SetIndex(array", "            Expr::Super(")
MAP = between("            Expr::LiteralMap(map) => {", "            Expr::LiteralNil =>")
ARR = between("            Expr::LiteralArray(elements) => {", "            Expr::LiteralBool")
STMTCLASS = between("                // Track that we're in a class.", "            Stmt::Continue(_)")
HELP = "    fn resolve_class("

EDITS = [
    ('x-lookup-findmap', [(R, LOOKUP, '''        let len = self.scopes.len();
        let found = self
            .scopes
            .iter()
            .rev()
            .enumerate()
            .find_map(|(distance, scope)| {
                scope.get(identifier).map(|state| {
                    VarLoc::new(distance as u16, state.slot_index as u8)
                })
            });
        if let Some(var_loc) = found {
            return Ok(var_loc);
        }
''')], None),
    ('x-lookup-rposition', [(R, LOOKUP, '''        let len = self.scopes.len();
        if let Some(i) = self.scopes.iter().rposition(|s| s.contains_key(identifier)) {
            let state = &self.scopes[i][identifier];
            return Ok(VarLoc::new((len - 1 - i) as u16, state.slot_index as u8));
        }
''')], None),
    ('x-lookup-helper', [(R, LOOKUP, '''        let len = self.scopes.len();
        if let Some(var_loc) = self.find_declared(identifier) {
            return Ok(var_loc);
        }
'''), (R, HELP, '''    fn find_declared(&self, identifier: &str) -> Option<VarLoc> {
        let mut distance: u16 = 0;
        for scope in self.scopes.iter().rev() {
            if let Some(state) = scope.get(identifier) {
                return Some(VarLoc::new(distance, state.slot_index as u8));
            }
            distance += 1;
        }
        None
    }

    fn resolve_class(''')], None),
    ('x-lookup-find', [(R, LOOKUP, '''        let len = self.scopes.len();
        let hit = (0..len).rev().find(|i| self.scopes[*i].contains_key(identifier));
        if let Some(i) = hit {
            if let Some(resolve_state) = self.scopes[i].get(identifier) {
                let distance = (len - 1 - i) as u16;
                return Ok(VarLoc::new(distance, resolve_state.slot_index as u8));
            }
        }
''')], None),
    ('x-lookup-get-question', [(R, "            let scope = &self.scopes[i];\n            match scope.get(identifier) {", "            match self.scopes.get(i).and_then(|scope| scope.get(identifier)) {")], None),
    ('x-block-statements', [(R, BLOCK, '''                self.begin_scope();
                let result = self.resolve_statements(statements);
                self.end_scope();

                result
'''), (R, FUNBODY, '''        let result = fun_def
            .parameters
            .iter()
            .try_for_each(|p| self.define(&p.name, &p.source_loc))
            .and_then(|()| self.resolve_statements(&mut fun_def.body));
        self.end_scope();
'''), (R, HELP, '''    fn resolve_statements(&mut self, statements: &mut [Stmt]) -> Result<(), ParseErrorCause> {
        for statement in statements {
            self.resolve_statement(statement)?;
        }

        Ok(())
    }

    fn resolve_class(''')], None),
    ('x-fun-closure', [(R, FUNBODY, '''        let result = (|| {
            for parameter in &fun_def.parameters {
                self.define(&parameter.name, &parameter.source_loc)?;
            }
            for body_statement in &mut fun_def.body {
                self.resolve_statement(body_statement)?;
            }
            Ok(())
        })();
        self.end_scope();
''')], None),
    ('x-with-function', [(R, FUN, '''    fn resolve_function(
        &mut self,
        fun_def: &mut FunctionDefinition,
        function_type: FunctionType,
    ) -> Result<(), ParseErrorCause> {
        let enclosing = std::mem::replace(&mut self.function_type, function_type);
        let result = self.in_scope(|this| {
            for Parameter { name, source_loc } in &fun_def.parameters {
                this.define(name, source_loc)?;
            }
            fun_def
                .body
                .iter_mut()
                .try_for_each(|statement| this.resolve_statement(statement))
        });
        self.function_type = enclosing;

        result
    }

    fn in_scope(
        &mut self,
        body: impl FnOnce(&mut Resolver) -> Result<(), ParseErrorCause>,
    ) -> Result<(), ParseErrorCause> {
        self.begin_scope();
        let result = body(self);
        self.end_scope();

        result
    }

''')], None),
    ('x-class-split', [(R, CLASS, '''    fn resolve_class(
        &mut self,
        class_def: &mut ClassDefinition,
    ) -> Result<(), ParseErrorCause> {
        self.define(&class_def.name, &class_def.source_loc)?;

        if class_def.superclass.is_some() {
            self.resolve_superclass(class_def)?;
            self.begin_scope();
            if let Err(error) = self.define("super", &class_def.source_loc) {
                self.end_scope();
                return Err(error);
            }
            let result = self.resolve_methods(class_def);
            self.end_scope();
            result
        } else {
            self.resolve_methods(class_def)
        }
    }

    fn resolve_superclass(
        &mut self,
        class_def: &mut ClassDefinition,
    ) -> Result<(), ParseErrorCause> {
        let superclass = match class_def.superclass.as_mut() {
            Some(superclass) => superclass,
            None => return Ok(()),
        };
        match &**superclass {
            Expr::Variable(id, _, loc) if *id == class_def.name => {
                Err(ParseErrorCause::new_with_location(
                    *loc,
                    id,
                    "A class cannot inherit from itself.",
                ))
            }
            _ => self.resolve_expression(superclass),
        }
    }

    fn resolve_methods(
        &mut self,
        class_def: &mut ClassDefinition,
    ) -> Result<(), ParseErrorCause> {
        self.begin_scope();
        let result = self
            .define("this", &class_def.source_loc)
            .and_then(|_| {
                class_def.methods.iter_mut().try_for_each(|method| {
                    let fun_type = Resolver::method_type(&method.name);
                    self.resolve_function(&mut method.fun_def, fun_type)
                })
            });
        self.end_scope();

        result
    }

    fn method_type(name: &str) -> FunctionType {
        match name {
            "init" => FunctionType::Initializer,
            _ => FunctionType::Method,
        }
    }

'''), (R, 'use std::ops::Deref;\n', '')], None),
    ('x-super-tuple', [(R, SUPERARM, '''            Expr::Super(super_dist_cell, _, loc) => {
                let problem = match self.class_type {
                    ClassType::Subclass => None,
                    ClassType::PlainClass => {
                        Some("Cannot use 'super' in a class with no superclass.")
                    }
                    ClassType::NoClass => {
                        Some("Cannot use 'super' outside of a class.")
                    }
                };
                if let Some(message) = problem {
                    return Err(ParseErrorCause::new_with_location(*loc, "super", message));
                }

''')], None),
    ('x-this-flat', [(R, THIS, '''            Expr::Variable(identifier, dist_cell, loc) => {
                if identifier == "this" && self.class_type == ClassType::NoClass {
                    return Err(ParseErrorCause::new_with_location(
                        *loc,
                        "this",
                        "Cannot use 'this' outside of a class.",
                    ));
                }

''')], None),
    ('x-own-helper', [(R, OWN, '''                if self.is_being_declared(identifier) {
                    return Err(ParseErrorCause::new_with_location(
                        *loc,
                        identifier,
                        "Cannot read local variable in its own initializer.",
                    ));
                }

'''), (R, HELP, '''    fn is_being_declared(&self, identifier: &str) -> bool {
        let scope = self.scopes.last().expect("a scope");
        matches!(
            scope.get(identifier),
            Some(VarResolveState { defined_state: DeclaredVar, .. })
        )
    }

    fn resolve_class(''')], None),
    ('x-own-map-or', [(R, OWN, '''                let in_own_initializer = self.scopes[self.scopes.len() - 1]
                    .get(identifier)
                    .map_or(false, |state| state.defined_state == DeclaredVar);
                if in_own_initializer {
                    return Err(ParseErrorCause::new_with_location(
                        *loc,
                        identifier,
                        "Cannot read local variable in its own initializer.",
                    ));
                }

''')], None),
    ('x-declare-rewrite', [(R, DECL, '''    fn declare(
        &mut self,
        identifier: &str,
        slot_index_cell: &mut Cell<SlotIndex>,
        loc: &SourceLoc,
    ) -> Result<(), ParseErrorCause> {
        let is_global = self.is_in_global_scope();
        let scope = self.scopes.last_mut().expect("Resolver::declare: no scopes");
        let next_slot = scope.len();
        ensure_scope_index_limit(next_slot, identifier, loc)?;

        let slot_index = match scope.get_mut(identifier) {
            None => {
                scope.insert(
                    identifier.to_string(),
                    VarResolveState {
                        slot_index: next_slot,
                        defined_state: DeclaredVar,
                    },
                );
                next_slot
            }
            Some(state) => {
                if state.defined_state == UndefinedVar {
                    state.defined_state = DeclaredVar;
                } else if !is_global {
                    return Err(ParseErrorCause::new_with_location(
                        *loc,
                        identifier,
                        "Variable with this name already declared in this scope.",
                    ));
                }
                state.slot_index
            }
        };
        slot_index_cell.set(SlotIndex::new(slot_index as u8));

        Ok(())
    }

''')], None),
    ('x-define-rewrite', [(R, DEF, '''    fn define(
        &mut self,
        identifier: &str,
        loc: &SourceLoc,
    ) -> Result<(), ParseErrorCause> {
        let is_global = self.scopes.len() == 1;
        let scope = self.scopes.last_mut().expect("Resolver::define: no scopes");
        let slot_index = scope.len();
        ensure_scope_index_limit(slot_index, identifier, loc)?;
        if let Some(state) = scope.get_mut(identifier) {
            let was_defined = state.defined_state == DefinedVar;
            state.defined_state = DefinedVar;
            if was_defined && !is_global {
                return Err(ParseErrorCause::new_with_location(
                    *loc,
                    identifier,
                    "Variable with this name already declared in this scope.",
                ));
            }
            return Ok(());
        }
        scope.insert(
            identifier.to_owned(),
            VarResolveState { slot_index, defined_state: DefinedVar },
        );

        Ok(())
    }
}

''')], None),
    ('x-define-or-insert-with', [(R, '''            .or_insert(var_resolve_state);

        if already_defined''', '''            .or_insert_with(|| var_resolve_state);

        if already_defined''')], None),
    ('x-forward-rewrite', [(R, FWD, '''    fn forward_reserve_global_var(
        &mut self,
        identifier: &str,
        loc: &SourceLoc,
    ) -> Result<usize, ParseErrorCause> {
        let globals = &mut self.scopes[0];
        debug_assert!(!globals.contains_key(identifier));
        let slot_index = globals.len();
        ensure_scope_index_limit(slot_index, identifier, loc)?;
        globals.insert(
            String::from(identifier),
            VarResolveState {
                slot_index,
                defined_state: VarResolveDefinedState::UndefinedVar,
            },
        );

        Ok(slot_index)
    }

'''), (R, 'use std::collections::hash_map::Entry;\n', '')], None),
    ('x-top-match', [(R, TOP, '''        let mut errors = vec![];
        for statement in &mut statements {
            match self.resolve_statement(statement) {
                Ok(_) => (),
                Err(error) => errors.push(error),
            }
        }
        if !errors.is_empty() {
            return Err(ParseError::new(errors));
        }

        Ok(ResolvedCode::new(statements))
    }

''')], None),
    ('x-top-fold', [(R, TOP, '''        let errors = statements.iter_mut().fold(Vec::new(), |mut acc, statement| {
            if let Err(error) = self.resolve_statement(statement) {
                acc.push(error);
            }
            acc
        });

        match errors.len() {
            0 => Ok(ResolvedCode::new(statements)),
            _ => Err(ParseError::new(errors)),
        }
    }

''')], None),
    ('x-top-extend', [(R, TOP, '''        let mut errors: Vec<ParseErrorCause> = Vec::new();
        for statement in statements.iter_mut() {
            errors.extend(self.resolve_statement(statement).err());
        }

        if errors.is_empty() {
            Ok(ResolvedCode::new(statements))
        } else {
            Err(ParseError::new(errors))
        }
    }

''')], None),
    ('x-var-and', [(R, VAR, '''            Stmt::Var(identifier, slot_index_cell, expr, loc) => {
                self.declare(identifier, slot_index_cell, loc)?;
                let resolved = self.resolve_expression(expr);
                self.define(identifier, loc).and(resolved)
            }
''')], None),
    ('x-var-match', [(R, VAR, '''            Stmt::Var(identifier, slot_index_cell, expr, loc) => {
                self.declare(identifier, slot_index_cell, loc)?;
                match self.resolve_expression(expr) {
                    Ok(()) => self.define(identifier, loc),
                    Err(error) => {
                        self.define(identifier, loc)?;
                        Err(error)
                    }
                }
            }
''')], None),
    ('x-while-helper', [(R, WHILES, '''            Stmt::While(condition, body) => {
                self.resolve_loop(condition, body, None)
            }
            Stmt::WhileIncrement(condition, body, increment) => {
                self.resolve_loop(condition, body, Some(increment))
            }
'''), (R, HELP, '''    fn resolve_loop(
        &mut self,
        condition: &mut Expr,
        body: &mut Stmt,
        increment: Option<&mut Expr>,
    ) -> Result<(), ParseErrorCause> {
        self.resolve_expression(condition)?;
        self.resolve_statement(body)?;
        match increment {
            Some(increment) => self.resolve_expression(increment),
            None => Ok(()),
        }
    }

    fn resolve_class(''')], None),
    ('x-if-map', [(R, IF, '''            Stmt::If(condition, then_stmt, else_stmt_opt) => {
                self.resolve_expression(condition)?;
                self.resolve_statement(then_stmt)?;
                else_stmt_opt
                    .as_mut()
                    .map_or(Ok(()), |else_stmt| self.resolve_statement(else_stmt))
            }
''')], None),
    ('x-if-iter', [(R, IF, '''            Stmt::If(condition, then_stmt, else_stmt_opt) => {
                self.resolve_expression(condition)?;
                self.resolve_statement(then_stmt)?;
                for else_stmt in else_stmt_opt.iter_mut() {
                    self.resolve_statement(else_stmt)?;
                }

                Ok(())
            }
''')], None),
    ('x-new-vec', [(R, NEW, '''        let mut resolver = Resolver {
            scopes: vec![HashMap::new()],
            function_type: FunctionType::NoFunction,
            class_type: ClassType::NoClass,
        };

        for native_id in all_native_ids().iter() {
            resolver
                .define(&native_id.to_string(), &SourceLoc::default())
                .expect("Resolver::new(): defining native function failed");
        }

        resolver
    }

''')], None),
    ('x-limit-flip', [(R, LIMIT, '''    if new_scope_len <= SLOT_INDEX_MAX_USIZE {
        return Ok(());
    }

    Err(ParseErrorCause::new_with_location(
        *loc,
        identifier,
        "Too many local variables in function.",
    ))
}
''')], None),
    ('x-limit-try-from', [(R, LIMIT, '''    match u8::try_from(new_scope_len) {
        Ok(_) => Ok(()),
        Err(_) => Err(ParseErrorCause::new_with_location(
            *loc,
            identifier,
            "Too many local variables in function.",
        )),
    }
}
''')], None),
    ('x-pair', [(R, BIN, '''            Expr::Binary(left, _, right, _) => {
                self.resolve_pair(left, right)
            }
'''), (R, LOGI, '''            Expr::Logical(left, _, right) => self.resolve_pair(left, right),
'''), (R, HELP, '''    fn resolve_pair(&mut self, first: &mut Expr, second: &mut Expr) -> Result<(), ParseErrorCause> {
        self.resolve_expression(first)?;
        self.resolve_expression(second)
    }

    fn resolve_class(''')], None),
    ('x-or-pattern', [(R, BIN, '''            Expr::Binary(left, _, right, _)
            | Expr::Logical(left, _, right)
            | Expr::GetIndex(left, right, _)
            | Expr::Set(left, _, right, _) => {
                self.resolve_expression(left)?;
                self.resolve_expression(right)?;

                Ok(())
            }
'''), (R, LOGI, ''), (R, between("            Expr::GetIndex(expr, index, _) => {", "            Expr::Grouping("), ''),
        (R, between("            Expr::Set(object_expr, _,", "            Expr::SetIndex("), '')], None),
    ('x-setindex-array', [(R, SETIDX, '''            Expr::SetIndex(array, index, rhs, _) => {
                for part in [array, index, rhs] {
                    self.resolve_expression(part)?;
                }

                Ok(())
            }
''')], None),
    ('x-map-values', [(R, MAP, '''            Expr::LiteralMap(map) => map
                .iter_mut()
                .map(|(_, value)| value)
                .try_for_each(|value| self.resolve_expression(value)),
'''), (R, ARR, '''            Expr::LiteralArray(elements) => elements
                .iter_mut()
                .try_for_each(|element| self.resolve_expression(element)),
''')], None),
    ('x-map-while', [(R, ARR, '''            Expr::LiteralArray(elements) => {
                let mut remaining = elements.iter_mut();
                while let Some(element) = remaining.next() {
                    self.resolve_expression(element)?;
                }

                Ok(())
            }
''')], None),
    ('x-class-stmt', [(R, STMTCLASS, '''                let class_type = match &class_def.superclass {
                    Some(_) => ClassType::Subclass,
                    None => ClassType::PlainClass,
                };
                let enclosing = self.class_type;
                self.class_type = class_type;
                let result = self.resolve_class(class_def);
                self.class_type = enclosing;
                result
            }
''')], None),
    ('x-return-helper', [(R, RETURN, '''                self.check_return(loc)?;
'''), (R, HELP, '''    fn check_return(&self, loc: &SourceLoc) -> Result<(), ParseErrorCause> {
        if let FunctionType::NoFunction = self.function_type {
            Err(ParseErrorCause::new_with_location(
                *loc,
                "return",
                "Cannot return from top-level code.",
            ))
        } else {
            Ok(())
        }
    }

    fn resolve_class(''')], None),
    ('x-init-nil', [(R, '''                if self.function_type == FunctionType::Initializer {
                    match expr {
                        Expr::LiteralNil => (),
                        _ => {
                            return Err(ParseErrorCause::new_with_location(
                                *loc,
                                "return",
                                "Cannot return a value from an initializer.",
                            ));
                        }
                    }
                }

                self.resolve_expression(expr)
''', '''                let returns_value = !matches!(expr, Expr::LiteralNil);
                if returns_value && self.function_type == FunctionType::Initializer {
                    return Err(ParseErrorCause::new_with_location(
                        *loc,
                        "return",
                        "Cannot return a value from an initializer.",
                    ));
                }

                self.resolve_expression(expr)
''')], None),
    ('x-current-scope', [(R, '''        let scope = self.scopes.last_mut().expect("Resolver::define: I'm trying to look up the most-local scope, but there are none");''', '''        let scope = self.current_scope();'''),
        (R, '''        let scope = self.scopes.last_mut().expect("Resolver::declare: I'm trying to look up the most-local scope, but there are none");''', '''        let scope = self.current_scope();'''),
        (R, HELP, '''    fn current_scope(&mut self) -> &mut HashMap<String, VarResolveState> {
        self.scopes.last_mut().expect("Resolver::current_scope: no scopes")
    }

    fn resolve_class(''')], None),
    ('x-state-methods', [(R, "enum ClassType {", '''enum ClassType {''') , (R, "impl Resolver {\n    pub fn new", '''impl VarResolveState {
    fn declared(slot_index: usize) -> VarResolveState {
        VarResolveState { slot_index, defined_state: DeclaredVar }
    }

    fn is_defined(&self) -> bool {
        matches!(self.defined_state, DefinedVar)
    }
}

impl Resolver {
    pub fn new'''), (R, '''        let var_resolve_state = VarResolveState {
            slot_index,
            defined_state: DeclaredVar,
        };
''', '''        let var_resolve_state = VarResolveState::declared(slot_index);
'''), (R, '''            .and_modify(|state| match state.defined_state {
                UndefinedVar | DeclaredVar => state.defined_state = DefinedVar,
                DefinedVar => already_defined = true,
            })
''', '''            .and_modify(|state| {
                already_defined = state.is_defined();
                state.defined_state = DefinedVar;
            })
''')], None),
    ('x-scope-type', [(R, "    scopes: Vec<HashMap<String, VarResolveState>>,", "    scopes: Vec<Scope>,"), (R, "impl Resolver {\n    pub fn new", "type Scope = HashMap<String, VarResolveState>;\n\nimpl Resolver {\n    pub fn new"), (R, "        self.scopes.push(HashMap::new());", "        self.scopes.push(Scope::default());")], None),
    ('x-end-scope-truncate', [(R, "        self.scopes.pop();\n", "        let len = self.scopes.len();\n        self.scopes.truncate(len - 1);\n")], None),
    ('x-end-scope-assert', [(R, "        self.scopes.pop();\n", "        let scope = self.scopes.pop();\n        debug_assert!(scope.is_some());\n")], None),
    ('x-begin-assert', [(R, '''        if self.scopes.len() >= VAR_LOC_MAX_DISTANCE_USIZE {
            panic!("Too many nested lexical scopes: {}", self.scopes.len());
        }
''', '''        assert!(
            self.scopes.len() < VAR_LOC_MAX_DISTANCE_USIZE,
            "Too many nested lexical scopes: {}",
            self.scopes.len()
        );
''')], None),
    ('x-global-match', [(R, "        self.scopes.len() == 1\n", "        matches!(self.scopes.as_slice(), [_])\n")], None),
    ('x-env-into', [(V, "            distance: 0,\n            index: 0,\n        }\n", "            ..VarLoc::new(0, 0)\n        }\n")], None),
    ('x-env-from', [(V, "        SlotIndex::new(var_loc.index())", "        let VarLoc { index, .. } = *var_loc;\n        SlotIndex(index)")], None),
    ('x-struct-scope', [(R, "use crate::value::all_native_ids;\n", '''use crate::value::all_native_ids;

const ALREADY_DECLARED: &str =
    "Variable with this name already declared in this scope.";
'''), (R, '''                    identifier,
                    "Variable with this name already declared in this scope.",''', '''                    identifier,
                    ALREADY_DECLARED,'''), (R, '''                identifier,
                "Variable with this name already declared in this scope.",''', '''                identifier,
                ALREADY_DECLARED,''')], None),
    ('y-lookup-while-let', [(R, LOOKUP, '''        let len = self.scopes.len();
        let mut rest = self.scopes.as_slice();
        let mut distance = 0u16;
        while let Some((scope, outer)) = rest.split_last() {
            if let Some(state) = scope.get(identifier) {
                return Ok(VarLoc::new(distance, state.slot_index as u8));
            }
            rest = outer;
            distance = distance.saturating_add(1);
        }
''')], None),
    ('y-lookup-zip', [(R, LOOKUP, '''        let len = self.scopes.len();
        for (scope, distance) in self.scopes.iter().rev().zip(0u16..) {
            if let Some(state) = scope.get(identifier) {
                return Ok(VarLoc::new(distance, state.slot_index as u8));
            }
        }
''')], None),
    ('y-lookup-filter-map', [(R, LOOKUP, '''        let len = self.scopes.len();
        let mut hits = self.scopes.iter().enumerate().rev().filter_map(|(i, scope)| {
            scope.get(identifier).map(|state| (len - i - 1, state.slot_index))
        });
        if let Some((distance, slot_index)) = hits.next() {
            return Ok(VarLoc::new(distance as u16, slot_index as u8));
        }
''')], None),
    ('y-lookup-position-rev', [(R, LOOKUP, '''        let len = self.scopes.len();
        if let Some(distance) = self.scopes.iter().rev().position(|s| s.contains_key(identifier)) {
            let slot_index = self.scopes[len - 1 - distance][identifier].slot_index;
            return Ok(VarLoc::new(distance as u16, slot_index as u8));
        }
''')], None),
    ('y-lookup-copied', [(R, "            let scope = &self.scopes[i];\n            match scope.get(identifier) {", "            let found = self.scopes[i].get(identifier).copied();\n            match found {")], None),
    ('y-lookup-loop', [(R, LOOKUP, '''        let len = self.scopes.len();
        let mut distance = 0;
        loop {
            if distance == len {
                break;
            }
            if let Some(state) = self.scopes[len - 1 - distance].get(identifier) {
                return Ok(VarLoc::new(distance as u16, state.slot_index as u8));
            }
            distance += 1;
        }
''')], None),
    ('y-lookup-try-into', [(R, "let distance = (len - 1 - i) as u16;", "let distance = u16::try_from(len - 1 - i).expect(\"too deep\");")], None),
    ('y-lookup-debug-assert', [(R, "let distance = (len - 1 - i) as u16;", "debug_assert!(i < len);\n                    let distance = (len - i - 1) as u16;")], None),
    ('y-block-fold', [(R, BLOCK, '''                self.begin_scope();
                let result = statements
                    .iter_mut()
                    .map(|statement| self.resolve_statement(statement))
                    .find(|result| result.is_err())
                    .unwrap_or(Ok(()));
                self.end_scope();

                result
''')], None),
    ('y-block-collect', [(R, BLOCK, '''                self.begin_scope();
                let result: Result<(), ParseErrorCause> = statements
                    .iter_mut()
                    .map(|statement| self.resolve_statement(statement))
                    .collect();
                self.end_scope();

                result
''')], None),
    ('y-block-iflet', [(R, BLOCK, '''                self.begin_scope();
                for statement in statements.iter_mut() {
                    if let Err(error) = self.resolve_statement(statement) {
                        self.end_scope();
                        return Err(error);
                    }
                }
                self.end_scope();

                Ok(())
''')], None),
    ('y-block-try-fold', [(R, BLOCK, '''                self.begin_scope();
                let result = statements
                    .iter_mut()
                    .try_fold((), |(), statement| self.resolve_statement(statement));
                self.end_scope();

                result
''')], None),
    ('y-fun-params-chain', [(R, FUNBODY, '''        let mut result = Ok(());
        for (name, source_loc) in fun_def.parameters.iter().map(|p| (&p.name, &p.source_loc)) {
            result = self.define(name, source_loc);
            if result.is_err() {
                break;
            }
        }
        let mut body = fun_def.body.iter_mut();
        while result.is_ok() {
            match body.next() {
                Some(statement) => result = self.resolve_statement(statement),
                None => break,
            }
        }
        self.end_scope();
''')], None),
    ('y-fun-params-map', [(R, FUNBODY, '''        let mut result = Ok(());
        for (name, source_loc) in fun_def.parameters.iter().map(|p| (&p.name, &p.source_loc)) {
            result = self.define(name, source_loc);
            if result.is_err() {
                break;
            }
        }
        if result.is_ok() {
            for body_statement in &mut fun_def.body {
                result = self.resolve_statement(body_statement);
                if result.is_err() {
                    break;
                }
            }
        }
        self.end_scope();
''')], None),
    ('y-fun-body-while', [(R, FUNBODY, '''        let mut result = Ok(());
        for parameter in &fun_def.parameters {
            result = self.define(&parameter.name, &parameter.source_loc);
            if result.is_err() {
                break;
            }
        }
        let mut body = fun_def.body.iter_mut();
        while result.is_ok() {
            match body.next() {
                Some(statement) => result = self.resolve_statement(statement),
                None => break,
            }
        }
        self.end_scope();
''')], None),
    ('y-declare-match-entry', [(R, DECL, '''    fn declare(
        &mut self,
        identifier: &str,
        slot_index_cell: &mut Cell<SlotIndex>,
        loc: &SourceLoc,
    ) -> Result<(), ParseErrorCause> {
        let can_redeclare = self.is_in_global_scope();
        let scope = self.scopes.last_mut().unwrap();
        let len = scope.len();
        ensure_scope_index_limit(len, identifier, loc)?;

        let slot_index = match scope.entry(identifier.to_owned()) {
            Entry::Vacant(entry) => {
                entry
                    .insert(VarResolveState { slot_index: len, defined_state: DeclaredVar })
                    .slot_index
            }
            Entry::Occupied(mut entry) => {
                let state = entry.get_mut();
                match state.defined_state {
                    UndefinedVar => state.defined_state = DeclaredVar,
                    DeclaredVar | DefinedVar if can_redeclare => (),
                    DeclaredVar | DefinedVar => {
                        return Err(ParseErrorCause::new_with_location(
                            *loc,
                            identifier,
                            "Variable with this name already declared in this scope.",
                        ));
                    }
                }
                state.slot_index
            }
        };
        slot_index_cell.replace(SlotIndex::new(slot_index as u8));

        Ok(())
    }

''')], None),
    ('y-define-match', [(R, DEF, '''    fn define(
        &mut self,
        identifier: &str,
        loc: &SourceLoc,
    ) -> Result<(), ParseErrorCause> {
        let depth = self.scopes.len();
        let scope = &mut self.scopes[depth - 1];
        let slot_index = scope.len();
        ensure_scope_index_limit(slot_index, identifier, loc)?;
        let state = scope.entry(identifier.to_owned()).or_insert(VarResolveState {
            slot_index,
            defined_state: UndefinedVar,
        });
        match state.defined_state {
            DefinedVar if depth > 1 => Err(ParseErrorCause::new_with_location(
                *loc,
                identifier,
                "Variable with this name already declared in this scope.",
            )),
            _ => {
                state.defined_state = DefinedVar;
                Ok(())
            }
        }
    }
}

''')], None),
    ('y-define-replace', [(R, DEF, '''    fn define(
        &mut self,
        identifier: &str,
        loc: &SourceLoc,
    ) -> Result<(), ParseErrorCause> {
        let in_global_scope = self.is_in_global_scope();
        let scope = self.scopes.last_mut().expect("Resolver::define: no scopes");
        ensure_scope_index_limit(scope.len(), identifier, loc)?;
        let slot_index = scope.len();
        let old = match scope.get_mut(identifier) {
            None => None,
            Some(state) => Some(std::mem::replace(&mut state.defined_state, DefinedVar)),
        };
        match old {
            Some(DefinedVar) if !in_global_scope => Err(ParseErrorCause::new_with_location(
                *loc,
                identifier,
                "Variable with this name already declared in this scope.",
            )),
            Some(_) => Ok(()),
            None => {
                scope.insert(
                    identifier.into(),
                    VarResolveState { slot_index, defined_state: DefinedVar },
                );
                Ok(())
            }
        }
    }
}

''')], None),
    ('y-assign-tuple', [(R, '''                self.resolve_expression(expr)?;
                let var_loc = self.resolve_local_variable(identifier, loc)?;
                dist_cell.set(var_loc);

                Ok(())
''', '''                self.resolve_expression(expr)?;
                self.resolve_local_variable(identifier, loc)
                    .map(|var_loc| dist_cell.set(var_loc))
''')], None),
    ('y-guard-type', [(R, STMTCLASS, '''                let enclosing_class_type = self.enter_class(class_def.has_superclass());
                let result = self.resolve_class(class_def);
                self.leave_class(enclosing_class_type);

                result
            }
'''), (R, HELP, '''    fn enter_class(&mut self, has_superclass: bool) -> ClassType {
        let new = if has_superclass { ClassType::Subclass } else { ClassType::PlainClass };
        std::mem::replace(&mut self.class_type, new)
    }

    fn leave_class(&mut self, enclosing: ClassType) {
        self.class_type = enclosing;
    }

    fn resolve_class(''')], None),
    ('y-in-class', [(R, THIS, '''            Expr::Variable(identifier, dist_cell, loc) => {
                if identifier.as_str() == "this" && !self.in_class() {
                    return Err(ParseErrorCause::new_with_location(
                        *loc,
                        "this",
                        "Cannot use 'this' outside of a class.",
                    ));
                }

'''), (R, HELP, '''    fn in_class(&self) -> bool {
        match self.class_type {
            ClassType::NoClass => false,
            ClassType::PlainClass | ClassType::Subclass => true,
        }
    }

    fn resolve_class(''')], None),
    ('y-visitor-children', [(R, BIN, '''            Expr::Binary(left, _, right, _) => {
                self.resolve_each(vec![&mut **left, &mut **right])
            }
'''), (R, HELP, '''    fn resolve_each(&mut self, expressions: Vec<&mut Expr>) -> Result<(), ParseErrorCause> {
        for expression in expressions {
            self.resolve_expression(expression)?;
        }

        Ok(())
    }

    fn resolve_class(''')], None),
    ('y-expression-ok', [(R, BIN, '''            Expr::Binary(left, _, right, _) => {
                let result = self.resolve_expression(left);
                if result.is_err() {
                    return result;
                }
                self.resolve_expression(right)
            }
'''), (R, LOGI, '''            Expr::Logical(left, _, right) => {
                match self.resolve_expression(left) {
                    Ok(()) => self.resolve_expression(right),
                    error => error,
                }
            }
''')], None),
    ('y-literals-merged', [(R, "            Expr::LiteralBool(_) => Ok(()),\n", "            Expr::LiteralBool(_)\n            | Expr::LiteralNil\n            | Expr::LiteralNumber(_)\n            | Expr::LiteralString(_) => Ok(()),\n"), (R, "            Expr::LiteralNil => Ok(()),\n            Expr::LiteralNumber(_) => Ok(()),\n            Expr::LiteralString(_) => Ok(()),\n", "")], None),
    ('y-literals-wild', [(R, "            Expr::LiteralBool(_) => Ok(()),\n", ""), (R, "            Expr::LiteralNil => Ok(()),\n            Expr::LiteralNumber(_) => Ok(()),\n            Expr::LiteralString(_) => Ok(()),\n", ""), (R, THIS, "            Expr::LiteralBool(..) | Expr::LiteralNil | Expr::LiteralNumber(..) | Expr::LiteralString(..) => Ok(()),\n" + THIS)], None),
    ('y-cell-replace', [(R, "                super_dist_cell.set(super_var_loc);", "                *super_dist_cell.get_mut() = super_var_loc;")], None),
    ('y-free-fn', [(R, "            let result = self.resolve_statement(statement);\n            if let Err(error) = result {\n                errors.push(error);\n            }\n", "            self.resolve_statement(statement)\n                .unwrap_or_else(|error| errors.push(error));\n")], None),
    ('y-slot-helper', [(R, "        let slot_index = scope.len();\n        let var_resolve_state = VarResolveState {\n            slot_index,\n            defined_state: UndefinedVar,\n        };\n        ensure_scope_index_limit(scope.len(), identifier, loc)?;", "        let slot_index = next_slot(scope, identifier, loc)?;\n        let var_resolve_state = VarResolveState {\n            slot_index,\n            defined_state: UndefinedVar,\n        };"), (R, "// The 256th local should fail.", "fn next_slot(\n    scope: &HashMap<String, VarResolveState>,\n    identifier: &str,\n    loc: &SourceLoc,\n) -> Result<usize, ParseErrorCause> {\n    let slot_index = scope.len();\n    ensure_scope_index_limit(slot_index, identifier, loc).map(|()| slot_index)\n}\n\n// The 256th local should fail.")], None),
]
