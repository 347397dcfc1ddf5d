"""What the grammar says.  Parsed by speclang, never executed.

@nt      a rule compared with the parser method of the same name
@entry   a public entry point
others   parts of rules, expanded where they are used

Vocabulary: at(K.., k=0) next token(s) are of these kinds; tok(k) a token near
the cursor (.loc, .text, .number, .string); eat() consumes one token; expect(K..)
consumes one of these kinds or fails at the token found there; fail(token)
fails at that token; ident() consumes an identifier giving (text, loc);
in_loop / trailing are the parser's context.
"""


@entry("P07 P14 P06")
def parse():
    statements = []
    errors = []
    while not at(Eof):
        try:
            s = declaration()
            P("P06 P07")
            statements.append(s)
        except e:
            P("P07")
            errors.append(e)
            P("P14")
            skip_one()
            while not at(Eof, Class, Fun, Var, For, If, While, Print, Return):
                eat()
        P("P06 P07")
    P("P07 P06")
    if len(errors) == 0:
        return statements
    raise_all(errors)


@entry("P06 P13")
def parse_expression():
    try:
        e = expression()
        P("P06")
        expect(Eof)
        return e
    except x:
        raise_all([x])


@nt("P11 P16")
def declaration():
    if at(Class):
        eat()
        return class_declaration()
    if at(Fun) and at(Identifier, k=1):
        eat()
        name, loc = ident()
        f = named_function(name, loc, FunctionType.PlainFunction())
        return Stmt.Fun(f)
    if at(Var):
        eat()
        return var_declaration(0)
    return statement()


def class_declaration():
    P("P16")
    name, loc = ident()
    superclass = NONE
    if at(Less):
        eat()
        sname, sloc = ident()
        superclass = some(Expr.Variable(sname, unbound_var(), sloc))
    end = begin_block()
    methods = []
    P("P16 P03")
    while not at(end) and not at(Eof):
        b_cm = 0
        if at(Class):
            eat()
            b_cm = 1
        mname, mloc = ident()
        f = function_parts(mloc)
        if b_cm == 1:
            kind = FunctionType.ClassMethod()
        elif mname == "init":
            kind = FunctionType.Initializer()
        else:
            kind = FunctionType.Method()
        P("P16 P03")
        methods.append(make_named(mname, f, kind))
    close_block(end)
    P("P16 P17")
    return Stmt.Class(ClassDefinition(name=name, superclass=superclass, methods=methods, source_loc=loc))


def named_function(name, loc, kind):
    f = function_parts(loc)
    return make_named(name, f, kind)


def make_named(name, f, kind):
    params, body, loc = f
    return NamedFunctionDefinition(name=name, fun_def=FunctionDefinition(
        parameters=params, body=body, fun_type=kind, source_loc=loc))


def function_parts(loc):
    P("P16 P03")
    expect(LeftParen, LeftParenAbutting)
    params = []
    if not at(RightParen):
        while True:
            pname, ploc = ident()
            P("P08 P15")
            if len(params) >= 255:
                fail_at(ploc, pname)
            P("P16 P08")
            params.append(Parameter(name=pname, source_loc=ploc))
            if not at(Comma):
                break
            eat()
    P("P03 P16")
    expect(RightParen)
    end = begin_block()
    saved = in_loop
    P("P04 P16")
    in_loop = 0
    body = block(end)
    P("P04 P16")
    in_loop = saved
    P("P16")
    return params, body, loc


def begin_block():
    P("P03 P11 P16")
    if at(Terminator):
        eat()
        expect(Indent)
        return TokenType.Outdent()
    if at(LeftBrace):
        eat()
        return TokenType.RightBrace()
    fail(tok(0))


def close_block(end):
    P("P03")
    if not at(end):
        fail(tok(0))
    eat()


def block(end):
    P("P11 P03 P06")
    stmts = []
    while not at(end) and not at(Eof):
        s = declaration()
        P("P11 P06 P03 P07")
        stmts.append(s)
    close_block(end)
    return stmts


def var_declaration(for_init):
    P("P11")
    name, loc = ident()
    value = Expr.LiteralNil()
    b_end = 1
    if at(Equal):
        eat()
        if at(Terminator):
            eat()
        if at(Indent, LeftBrace):
            b_end = 0
        value = expression()
    if for_init:
        P("P10")
        expect(Semicolon)
    elif b_end:
        P("P06 P11")
        expect(Terminator)
    elif at(Terminator):
        P("P06 P11")
        eat()
    P("P11 P17 P10")
    return Stmt.Var(name, unbound_slot(), value, loc)


@nt("P11")
def statement():
    if at(Break):
        eat()
        P("P04 P15")
        if not in_loop:
            fail(tok(-1))
        P("P06 P11")
        kw = tok(-1).loc
        expect(Terminator)
        P("P11 P17")
        return Stmt.Break(kw)
    if at(Continue):
        eat()
        P("P04 P15")
        if not in_loop:
            fail(tok(-1))
        P("P06 P11")
        kw = tok(-1).loc
        expect(Terminator)
        P("P11 P17")
        return Stmt.Continue(kw)
    if at(For):
        eat()
        return for_statement()
    if at(If):
        eat()
        P("P11")
        expect(LeftParen, LeftParenAbutting)
        c = expression()
        P("P11 P03")
        expect(RightParen)
        a = body()
        P("P11")
        b = NONE
        if at(Else):
            eat()
            e = body()
            b = some(e)
        P("P11")
        return Stmt.If(c, a, b)
    if at(LeftBrace):
        eat()
        b = block(TokenType.RightBrace())
        P("P11")
        return Stmt.Block(b)
    if at(Print):
        eat()
        v = expression()
        P("P06 P11")
        expect(Terminator)
        P("P11")
        return Stmt.Print(v)
    if at(Return):
        kw = tok(0).loc
        eat()
        v = Expr.LiteralNil()
        if not at(Terminator):
            v = expression()
        P("P06 P11")
        expect(Terminator)
        P("P11 P17")
        return Stmt.Return(v, kw)
    if at(While):
        eat()
        P("P11")
        expect(LeftParen, LeftParenAbutting)
        c = expression()
        P("P11 P03")
        expect(RightParen)
        b = loop_body()
        P("P11")
        return Stmt.While(c, b)
    return expression_statement()


def expression_statement():
    P("P11 P06")
    v = expression()
    P("P13 P06")
    if trailing and at(Eof):
        pass
    else:
        expect(Terminator)
    P("P11")
    return Stmt.Expression(v)


def body():
    P("P11")
    if at(Terminator, LeftBrace):
        end = begin_block()
        b = block(end)
        P("P11")
        return Stmt.Block(b)
    return statement()


def loop_body():
    saved = in_loop
    P("P04 P11 P10")
    in_loop = 1
    b = body()
    P("P04 P11 P10")
    in_loop = saved
    return b


def for_statement():
    P("P10 P11")
    expect(LeftParen, LeftParenAbutting)
    init = NONE
    if at(Semicolon):
        eat()
    elif at(Var):
        eat()
        i = var_declaration(1)
        init = some(i)
    else:
        i = expression_statement()
        init = some(i)
    P("P10 P11")
    c = Expr.LiteralBool(1)
    if not at(Semicolon):
        c = expression()
    P("P10 P03")
    expect(Semicolon)
    inc = NONE
    if not at(RightParen):
        x = expression()
        inc = some(x)
    P("P10 P03")
    expect(RightParen)
    b = loop_body()
    P("P10 P11")
    if is_none(inc):
        w = Stmt.While(c, b)
    else:
        w = Stmt.WhileIncrement(c, b, unwrap(inc))
    if is_none(init):
        return w
    return Stmt.Block([unwrap(init), w])


@nt("P01")
def expression():
    return assignment()


@nt("P01 P05")
def assignment():
    if at(Indent):
        P("P03 P09 P01")
        eat()
        target = logical_or()
        P("P03 P09")
        if at(Terminator):
            eat()
        expect(Outdent)
    else:
        target = logical_or()
    P("P01 P05")
    if not at(Equal):
        return target
    loc = tok(0).loc
    eq = tok(0)
    eat()
    value = assignment()
    P("P05 P17 P15")
    if is_variant(target, "Get"):
        return Expr.Set(part(target, "Get", 0), part(target, "Get", 1), value, loc)
    if is_variant(target, "GetIndex"):
        return Expr.SetIndex(part(target, "GetIndex", 0), part(target, "GetIndex", 1), value, loc)
    if is_variant(target, "Variable"):
        if part(target, "Variable", 0) == "this":
            fail_at(loc, "=")
        return Expr.Assign(part(target, "Variable", 0), unbound_var(), value, loc)
    fail_at(loc, "=")


def logical_or():
    return or_level()


def or_level():
    return rule_or()


@nt("P01 P02")
def rule_or():
    e = rule_and()
    P("P01 P02")
    while at(Or):
        eat()
        r = rule_and()
        P("P02")
        e = Expr.Logical(e, LogicalOperator.Or(), r)
        P("P01 P02")
    return e


@nt("P01 P02")
def rule_and():
    e = equality()
    P("P01 P02")
    while at(And):
        eat()
        r = equality()
        P("P02")
        e = Expr.Logical(e, LogicalOperator.And(), r)
        P("P01 P02")
    return e


@nt("P01 P02")
def equality():
    e = comparison()
    P("P01 P02")
    while at(EqualEqual, BangEqual):
        op = tok(0)
        eat()
        r = comparison()
        if op.kind == TokenType.EqualEqual():
            o = BinaryOperator.Equal()
        else:
            o = BinaryOperator.NotEqual()
        P("P02 P17")
        e = Expr.Binary(e, o, r, op.loc)
        P("P01 P02")
    return e


@nt("P01 P02")
def comparison():
    e = addition()
    P("P01 P02")
    while at(Less, LessEqual, Greater, GreaterEqual):
        op = tok(0)
        eat()
        r = addition()
        if op.kind == TokenType.Less():
            o = BinaryOperator.Less()
        elif op.kind == TokenType.LessEqual():
            o = BinaryOperator.LessEqual()
        elif op.kind == TokenType.Greater():
            o = BinaryOperator.Greater()
        else:
            o = BinaryOperator.GreaterEqual()
        P("P02 P17")
        e = Expr.Binary(e, o, r, op.loc)
        P("P01 P02")
    return e


@nt("P01 P02")
def addition():
    e = multiplication()
    P("P01 P02")
    while at(Plus, Minus):
        op = tok(0)
        eat()
        r = multiplication()
        if op.kind == TokenType.Plus():
            o = BinaryOperator.Plus()
        else:
            o = BinaryOperator.Minus()
        P("P02 P17")
        e = Expr.Binary(e, o, r, op.loc)
        P("P01 P02")
    return e


@nt("P01 P02")
def multiplication():
    e = unary()
    P("P01 P02")
    while at(Star, Slash):
        op = tok(0)
        eat()
        r = unary()
        if op.kind == TokenType.Star():
            o = BinaryOperator.Multiply()
        else:
            o = BinaryOperator.Divide()
        P("P02 P17")
        e = Expr.Binary(e, o, r, op.loc)
        P("P01 P02")
    return e


@nt("P01 P02")
def unary():
    if at(Bang):
        loc = tok(0).loc
        eat()
        r = unary()
        P("P02 P17")
        return Expr.Unary(UnaryOperator.Not(), r, loc)
    if at(Minus):
        loc = tok(0).loc
        eat()
        r = unary()
        P("P02 P17")
        return Expr.Unary(UnaryOperator.Minus(), r, loc)
    return call()


@nt("P12 P01")
def call():
    e = primary()
    P("P12")
    while True:
        if at(Dot):
            loc = tok(0).loc
            eat()
            name, nloc = ident()
            P("P12 P17")
            e = Expr.Get(e, name, loc)
        elif at(LeftParenAbutting):
            loc = tok(0).loc
            eat()
            args = []
            P("P12 P08")
            if not at(RightParen):
                while True:
                    P("P08 P15")
                    if len(args) >= 255:
                        fail(tok(0))
                    P("P12 P08")
                    a = expression()
                    args.append(a)
                    if not at(Comma):
                        break
                    eat()
            P("P03 P12")
            expect(RightParen)
            P("P12 P17")
            e = Expr.Call(e, args, loc)
        elif at(LeftBracket):
            loc = tok(0).loc
            eat()
            i = expression()
            P("P03 P12")
            expect(RightBracket)
            P("P12 P17")
            e = Expr.GetIndex(e, i, loc)
        elif at(False_, True_, Nil, Number, String, Identifier, Fun, LeftParen, LeftBrace, Super):
            loc = tok(0).loc
            args = []
            while True:
                P("P08 P15")
                if len(args) >= 255:
                    fail(tok(0))
                P("P12 P08")
                a = expression()
                args.append(a)
                if not at(Comma):
                    break
                eat()
            P("P12 P17")
            e = Expr.Call(e, args, loc)
        else:
            return e
        P("P12")


@nt("P18")
def primary():
    if at(False_):
        eat()
        return Expr.LiteralBool(0)
    if at(True_):
        eat()
        return Expr.LiteralBool(1)
    if at(Nil):
        eat()
        return Expr.LiteralNil()
    if at(Number):
        v = tok(0).number
        eat()
        return Expr.LiteralNumber(v)
    if at(String):
        if at(Colon, k=1):
            P("P09 P18")
            m = map_entries()
            return Expr.LiteralMap(m)
        v = tok(0).string
        eat()
        return Expr.LiteralString(v)
    if at(Identifier, This):
        if at(Colon, k=1):
            P("P09 P18")
            m = map_entries()
            return Expr.LiteralMap(m)
        t = tok(0)
        eat()
        P("P18 P17")
        return Expr.Variable(t.text, unbound_var(), t.loc)
    if at(Fun):
        P("P16 P18")
        loc = tok(0).loc
        eat()
        if at(Identifier):
            eat()
            fail(tok(-1))
        f = function_parts(loc)
        params, body, floc = f
        P("P16 P18 P17")
        return Expr.Function(FunctionDefinition(parameters=params, body=body, fun_type=FunctionType.PlainFunction(),
                                                source_loc=floc))
    if at(LeftParen, LeftParenAbutting):
        P("P18 P03")
        eat()
        e = expression()
        P("P18 P03")
        expect(RightParen)
        return Expr.Grouping(e)
    if at(LeftBrace):
        P("P09 P03")
        eat()
        m = map_entries()
        P("P09 P03")
        expect(RightBrace)
        return Expr.LiteralMap(m)
    if at(LeftBracket):
        P("P18 P03")
        eat()
        items = []
        while not at(RightBracket):
            x = expression()
            P("P18 P03")
            items.append(x)
            if not at(Comma):
                break
            eat()
        P("P03 P18")
        expect(RightBracket)
        P("P18")
        return Expr.LiteralArray(items)
    if at(Super):
        P("P18 P17")
        loc = tok(0).loc
        eat()
        expect(Dot)
        name, nloc = ident()
        P("P18 P17")
        return Expr.Super(unbound_var(), name, loc)
    P("P18 P15")
    skip_one()
    fail(tok_before())


def map_entries():
    P("P09")
    m = empty_map()
    while at(Identifier, String) and at(Colon, k=1):
        t = tok(0)
        if at(String):
            key = t.string
        else:
            key = t.text
        eat()
        eat()
        v = expression()
        P("P09 P15")
        if has_key(m, key):
            fail_at(t.loc, key)
        P("P09")
        m = with_entry(m, key, v)
        if at(Comma):
            eat()
        elif at(Terminator) and at(Identifier, String, k=1) and at(Colon, k=2):
            eat()
        elif at(Terminator) and at(RightBrace, k=1):
            eat()
        else:
            break
    return wrap_map(m)
