"""What scanning means.  Parsed by speclang, never executed.

C is the cursor (an index of user-perceived characters), N their number; ch(k)
the character at k, text(i, j) the source between two cursors.  line, col,
levels, spaces and the b_ flags are the state of the scan:
b_bol (nothing but blanks so far on this line), b_continued (this line continues
the one before), b_continues (the last token asks for the line to be continued),
b_abut (the character before the cursor belongs to a token), comment (this line
has a comment), nerr (the number of errors reported).
take() consumes one character, emit() adds a token, report() an error.
"""


@entry("L02")
def scan():
    while C < N:
        one()
    P("L02 L03")
    n = len(levels)
    while n > 0:
        emit(Outdent, line, col, ANYTHING)
        n = n - 1
    P("L02")
    emit(Eof, line, col, text(C, C))
    P("L09")
    if nerr > 0:
        return failure()
    return success()


def take():
    col = sat_col(col)
    eat()


def line_start(c0):
    if b_bol:
        P("L02 L03 L04")
        top = 0
        if len(levels) > 0:
            top = last(levels)
        if spaces > top:
            if not b_continued:
                levels = push(levels, spaces)
                emit(Indent, line, c0, ANYTHING)
        else:
            P("L02 L03")
            while len(levels) > 0 and last(levels) > spaces:
                levels = pop(levels)
                emit(Outdent, line, c0, ANYTHING)
            P("L03 L09")
            if spaces > 0 and spaces < top and (len(levels) == 0 or last(levels) < spaces):
                report(line, c0)
        b_bol = 0


def new_line():
    line = sat_line(line)
    col = 1
    spaces = 0
    comment = 0
    if not b_bol:
        b_continued = b_continues
        b_continues = 0
    b_bol = 1


def simple(kind, g, c0, cont):
    line_start(c0)
    P("L01")
    emit(kind, line, c0, text(g, C))
    b_continues = cont
    b_abut = 1


def double(short, long, g, c0, cont):
    line_start(c0)
    P("L01")
    kind = short
    if C < N and ch(C) == "=":
        take()
        kind = long
    emit(kind, line, c0, text(g, C))
    b_continues = cont
    b_abut = 1


def one():
    P("L01 L09")
    g = C
    c0 = col
    take()
    c = ch(g)
    if c == " ":
        P("L03 L05")
        if b_bol:
            spaces = sat_spaces(spaces)
        b_abut = 0
    elif c == "\n" or c == "\r\n":
        P("L04")
        if comment:
            P("L04 L05")
        if not b_bol and not b_continues:
            emit(Terminator, line, c0, text(g, C))
        new_line()
        b_abut = 0
    elif c == "\r":
        P("L06")
        b_abut = 0
    elif c == "\t":
        P("L09")
        report(line, c0)
        b_abut = 0
    elif c == "(":
        line_start(c0)
        P("L10 L01")
        if b_abut:
            emit(LeftParenAbutting, line, c0, text(g, C))
        else:
            emit(LeftParen, line, c0, text(g, C))
        b_continues = 1
        b_abut = 1
    elif c == ")":
        simple(RightParen, g, c0, 0)
    elif c == "{":
        simple(LeftBrace, g, c0, 1)
    elif c == "}":
        simple(RightBrace, g, c0, 0)
    elif c == "[":
        simple(LeftBracket, g, c0, 1)
    elif c == "]":
        simple(RightBracket, g, c0, 0)
    elif c == ":":
        simple(Colon, g, c0, 1)
    elif c == ",":
        simple(Comma, g, c0, 1)
    elif c == ".":
        simple(Dot, g, c0, 1)
    elif c == "-":
        simple(Minus, g, c0, 1)
    elif c == "+":
        simple(Plus, g, c0, 1)
    elif c == ";":
        simple(Semicolon, g, c0, 0)
    elif c == "*":
        simple(Star, g, c0, 1)
    elif c == "!":
        double(Bang, BangEqual, g, c0, 0)
    elif c == "=":
        double(Equal, EqualEqual, g, c0, 0)
    elif c == "<":
        double(Less, LessEqual, g, c0, 1)
    elif c == ">":
        double(Greater, GreaterEqual, g, c0, 1)
    elif c == "/":
        P("L05 L01")
        if C < N and ch(C) == "/":
            P("L05")
            comment = 1
            while C < N and not (ch(C) == "\n" or ch(C) == "\r\n"):
                take()
            b_abut = 0
        else:
            simple(Slash, g, c0, 1)
    elif c == "\\":
        P("L04 L09")
        while C < N and ch(C) == " ":
            take()
        if C < N and ch(C) == "\r":
            take()
        if C < N and (ch(C) == "\n" or ch(C) == "\r\n"):
            take()
            new_line()
            b_continued = 1
            b_abut = 0
        else:
            report(line, c0)
            b_continues = 0
            b_abut = 1
    elif c == '"':
        string(g, c0)
    elif digit(c):
        number(g, c0)
    elif letter(c):
        word(g, c0)
    else:
        line_start(c0)
        P("L09")
        report(line, c0)
        b_continues = 0
        b_abut = 1


def string(g, c0):
    line_start(c0)
    P("L08 L09")
    l0 = line
    b_continues = 0
    b_abut = 1
    while C < N and not (ch(C) == '"'):
        if ch(C) == "\n" or ch(C) == "\r\n":
            line = sat_line(line)
            col = 0
        take()
    if C < N:
        take()
        emit(String, l0, c0, text(g, C), string=text(g + 1, C - 1))
    else:
        report(line, col)


def number(g, c0):
    line_start(c0)
    P("L08")
    while C < N and digit(ch(C)):
        take()
    if C < N and ch(C) == "." and C + 1 < N and digit(ch(C + 1)):
        take()
        while C < N and digit(ch(C)):
            take()
    emit(Number, line, c0, text(g, C), number=decimal(text(g, C)))
    b_continues = 0
    b_abut = 1


def word(g, c0):
    line_start(c0)
    P("L08 L01")
    while C < N and alnum(ch(C)):
        take()
    P("L01")
    t = text(g, C)
    kind = Identifier
    if t == "and":
        kind = And
    elif t == "break":
        kind = Break
    elif t == "class":
        kind = Class
    elif t == "continue":
        kind = Continue
    elif t == "else":
        kind = Else
    elif t == "false":
        kind = False_
    elif t == "for":
        kind = For
    elif t == "fun":
        kind = Fun
    elif t == "if":
        kind = If
    elif t == "nil":
        kind = Nil
    elif t == "or":
        kind = Or
    elif t == "print":
        kind = Print
    elif t == "return":
        kind = Return
    elif t == "super":
        kind = Super
    elif t == "this":
        kind = This
    elif t == "true":
        kind = True_
    elif t == "var":
        kind = Var
    elif t == "while":
        kind = While
    emit(kind, line, c0, text(g, C))
    b_continues = 0
    b_abut = 1
