"""What name resolution does.  Parsed by speclang, never executed.

@nt      a rule compared with the resolver function of the same name
@entry   the public method that resolves a program
others   parts of rules, expanded where they are used

A node is a place in the tree: kind(n, K) tests the variant, part(n, K, i) and
field(n, 'f') are places inside it, count(n)/item(n, i) the elements of a list,
inner(n) what an Option holds, val(n) the value found there.  Scopes are maps
from names to variables: depth() of them are open, scope(i) is one of them, the
last one is the innermost.  lookup(m, name) is 1 or 0; entry(m, name) the
variable; put(i, name, slot, state) binds name in scope i.  bind(n, v) stores v
in the cell at n.
"""


@entry("R08")
def resolve(program):
    errors = []
    i = 0
    while i < count(program):
        try:
            P("R08 R01")
            resolve_statement(item(program, i))
        except e:
            P("R08")
            errors.append(e)
        i = i + 1
    P("R08 R01")
    if len(errors) == 0:
        return resolved(program)
    raise_all(errors)


@nt("R01")
def resolve_statement(s):
    if kind(s, Block):
        P("R04")
        open_scope()
        try:
            statements(part(s, Block, 0))
        except e:
            P("R04 R07")
            close_scope()
            reraise(e)
        P("R04")
        close_scope()
        return
    if kind(s, Class):
        resolve_class(part(s, Class, 0))
        return
    if kind(s, Expression):
        P("R01")
        resolve_expression(part(s, Expression, 0))
        return
    if kind(s, Fun):
        d = part(s, Fun, 0)
        f = field(d, "fun_def")
        define(val(field(d, "name")), val(field(f, "source_loc")))
        resolve_function(f, Plain)
        return
    if kind(s, If):
        P("R01")
        resolve_expression(part(s, If, 0))
        resolve_statement(part(s, If, 1))
        if is_some(part(s, If, 2)):
            resolve_statement(inner(part(s, If, 2)))
        return
    if kind(s, Print):
        P("R01")
        resolve_expression(part(s, Print, 0))
        return
    if kind(s, Return):
        P("R05")
        if function_is(NoFunction):
            fail(val(part(s, Return, 1)), "return")
        if function_is(Initializer):
            if not kind(part(s, Return, 0), LiteralNil):
                fail(val(part(s, Return, 1)), "return")
        P("R01 R05")
        resolve_expression(part(s, Return, 0))
        return
    if kind(s, Var):
        name = val(part(s, Var, 0))
        loc = val(part(s, Var, 3))
        slot = declare(name, loc)
        P("R03 R01")
        bind(part(s, Var, 1), slot)
        P("R01 R06")
        try:
            resolve_expression(part(s, Var, 2))
        except e:
            P("R07")
            try:
                define(name, loc)
            except x:
                reraise(x)
            P("R07")
            reraise(e)
        define(name, loc)
        P("R01 R03")
        return
    if kind(s, While):
        P("R01")
        resolve_expression(part(s, While, 0))
        resolve_statement(part(s, While, 1))
        return
    if kind(s, WhileIncrement):
        P("R01")
        resolve_expression(part(s, WhileIncrement, 0))
        resolve_statement(part(s, WhileIncrement, 1))
        resolve_expression(part(s, WhileIncrement, 2))
        return
    P("R01")


def statements(list):
    i = 0
    while i < count(list):
        P("R01")
        resolve_statement(item(list, i))
        i = i + 1


def expressions(list):
    i = 0
    while i < count(list):
        P("R01")
        resolve_expression(item(list, i))
        i = i + 1


def resolve_class(c):
    outer = class_type()
    b_sub = 0
    P("R05")
    if is_some(field(c, "superclass")):
        b_sub = 1
        set_class(Subclass)
    else:
        set_class(PlainClass)
    try:
        class_parts(c, b_sub)
    except e:
        P("R07 R05")
        restore_class(outer)
        reraise(e)
    P("R05")
    restore_class(outer)


def class_parts(c, b_sub):
    name = val(field(c, "name"))
    loc = val(field(c, "source_loc"))
    define(name, loc)
    if b_sub == 1:
        up = inner(field(c, "superclass"))
        P("R06")
        if kind(up, Variable):
            if same(val(part(up, Variable, 0)), name):
                fail(val(part(up, Variable, 2)), val(part(up, Variable, 0)))
        P("R01 R04")
        resolve_expression(up)
        P("R04")
        open_scope()
        try:
            define("super", loc)
            class_body(c, loc)
        except e:
            P("R04 R07")
            close_scope()
            reraise(e)
        P("R04")
        close_scope()
        return
    class_body(c, loc)


def class_body(c, loc):
    P("R04")
    open_scope()
    try:
        define("this", loc)
        i = 0
        while i < count(field(c, "methods")):
            m = item(field(c, "methods"), i)
            P("R05 R01")
            if same(val(field(m, "name")), "init"):
                resolve_function(field(m, "fun_def"), Initializer)
            else:
                resolve_function(field(m, "fun_def"), Method)
            i = i + 1
    except e:
        P("R04 R07")
        close_scope()
        reraise(e)
    P("R04 R01")
    close_scope()


def resolve_function(f, kind_):
    outer = function_type()
    P("R05")
    set_function(kind_)
    P("R04")
    open_scope()
    try:
        i = 0
        while i < count(field(f, "parameters")):
            p = item(field(f, "parameters"), i)
            P("R01 R04")
            define(val(field(p, "name")), val(field(p, "source_loc")))
            i = i + 1
        P("R01 R04")
        statements(field(f, "body"))
    except e:
        P("R04 R07")
        close_scope()
        restore_function(outer)
        reraise(e)
    P("R04 R05 R01")
    close_scope()
    restore_function(outer)


@nt("R01")
def resolve_expression(e):
    if kind(e, Assign):
        P("R01")
        resolve_expression(part(e, Assign, 2))
        v = resolve_name(val(part(e, Assign, 0)), val(part(e, Assign, 3)))
        P("R01 R02")
        bind(part(e, Assign, 1), v)
        return
    if kind(e, Binary):
        P("R01")
        resolve_expression(part(e, Binary, 0))
        resolve_expression(part(e, Binary, 2))
        return
    if kind(e, Call):
        P("R01")
        resolve_expression(part(e, Call, 0))
        expressions(part(e, Call, 1))
        return
    if kind(e, Function):
        resolve_function(part(e, Function, 0), Plain)
        return
    if kind(e, Get):
        P("R01")
        resolve_expression(part(e, Get, 0))
        return
    if kind(e, GetIndex):
        P("R01")
        resolve_expression(part(e, GetIndex, 0))
        resolve_expression(part(e, GetIndex, 1))
        return
    if kind(e, Grouping):
        P("R01")
        resolve_expression(part(e, Grouping, 0))
        return
    if kind(e, LiteralArray):
        expressions(part(e, LiteralArray, 0))
        return
    if kind(e, LiteralMap):
        m = entries(part(e, LiteralMap, 0))
        i = 0
        while i < count(m):
            P("R01")
            resolve_expression(second(item(m, i)))
            i = i + 1
        return
    if kind(e, Logical):
        P("R01")
        resolve_expression(part(e, Logical, 0))
        resolve_expression(part(e, Logical, 2))
        return
    if kind(e, Set):
        P("R01")
        resolve_expression(part(e, Set, 0))
        resolve_expression(part(e, Set, 2))
        return
    if kind(e, SetIndex):
        P("R01")
        resolve_expression(part(e, SetIndex, 0))
        resolve_expression(part(e, SetIndex, 1))
        resolve_expression(part(e, SetIndex, 2))
        return
    if kind(e, Super):
        P("R05")
        if not class_is(Subclass):
            fail(val(part(e, Super, 2)), "super")
        v = resolve_name("super", val(part(e, Super, 2)))
        P("R01 R02")
        bind(part(e, Super, 0), v)
        return
    if kind(e, Variable):
        name = val(part(e, Variable, 0))
        loc = val(part(e, Variable, 2))
        P("R05")
        if class_is(NoClass):
            if same(name, "this"):
                fail(loc, "this")
        P("R06")
        b = lookup(scope(depth() - 1), name)
        if b == 1:
            if state_is(entry(scope(depth() - 1), name), DeclaredVar):
                fail(loc, name)
        v = resolve_name(name, loc)
        P("R01 R02")
        bind(part(e, Variable, 1), v)
        return
    if kind(e, Unary):
        P("R01")
        resolve_expression(part(e, Unary, 1))
        return
    P("R01")


def resolve_name(name, loc):
    P("R02")
    n = depth()
    i = n
    while i > 0:
        i = i - 1
        b = lookup(scope(i), name)
        if b == 1:
            return var_loc(n - 1 - i, slot_of(entry(scope(i), name)))
    P("R03")
    k = size(scope(0))
    if k > 255:
        fail(loc, name)
    P("R02 R03")
    put(0, name, k, UndefinedVar)
    return var_loc(n - 1, k)


def declare(name, loc):
    P("R03")
    top = depth() - 1
    k = size(scope(top))
    if k > 255:
        fail(loc, name)
    P("R06 R03")
    b = lookup(scope(top), name)
    if b == 0:
        put(top, name, k, DeclaredVar)
        return slot_index(k)
    v = entry(scope(top), name)
    if state_is(v, UndefinedVar):
        put(top, name, slot_of(v), DeclaredVar)
        return slot_index(slot_of(v))
    P("R06")
    if top > 0:
        fail(loc, name)
    return slot_index(slot_of(v))


def define(name, loc):
    P("R03")
    top = depth() - 1
    k = size(scope(top))
    if k > 255:
        fail(loc, name)
    P("R06 R03")
    b = lookup(scope(top), name)
    if b == 0:
        put(top, name, k, DefinedVar)
        return
    v = entry(scope(top), name)
    if state_is(v, DefinedVar):
        P("R06")
        if top > 0:
            fail(loc, name)
        return
    put(top, name, slot_of(v), DefinedVar)
