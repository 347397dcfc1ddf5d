#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property, validated on write)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
PROPS = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
SC, PA, RE, MA, AST, ENV, ERR, WA = ("src/scanner.rs", "src/parser.rs", "src/resolver.rs",
    "src/main.rs", "src/ast.rs", "src/environment.rs", "src/error.rs", "src/wasm.rs")
TK, SL = "src/token.rs", "src/source_loc.rs"

# ---------------------------------------------------------------- whole system
P("T01", "Scanning, parsing and resolving finish on every input",
  "For every source text, scanning, parsing (file, REPL line and single expression) and resolving return after finitely many steps. Every repetition consumes input, uses up a finite collection or leaves, and no grammar rule re-enters itself without having consumed a token.",
  ["inputs"], "all source texts, including malformed ones",
  "Tests run a few dozen short well-formed snippets; a loop that stops making progress needs a particular malformed shape (an outdent between two open levels, an unclosed construct, recovery at the end of input).",
  [SC, PA, RE], [("scan loop", "src/scanner.rs Scanner::scan_tokens/scan_token"), ("outdent loop", "src/scanner.rs Scanner::bol_indentation_tokens"), ("statement loops, recovery", "src/parser.rs Parser::parse/finish_block/synchronize")],
  observe=["parser::parse", "parser::parse_repl_line", "parser::parse_expression", "Resolver::resolve"])
P("T02", "No source text makes the library panic",
  "For every source text, scanning, parsing and resolving return a value or an error: no arithmetic overflow, out-of-range access, failed assertion or 'cannot happen' branch is ever reached. Line and column counters saturate rather than overflow. (Exhaustion of the stack by extremely deep nesting is a recorded known finding.)",
  ["inputs"], "all source texts, of any length and content",
  "Tests never reach 65 536 columns, empty inputs at every entry point, or the branches marked unreachable; they only show that sampled inputs do not panic.",
  [SC, PA, RE], [("saturating counters", "src/scanner.rs Scanner::advance/reset_line"), ("guarded look-behind", "src/parser.rs Parser::previous"), ("asserted branches", "src/parser.rs Parser::primary/call/statement, src/resolver.rs")],
  observe=["process does not abort"])
P("T03", "Results depend only on the source text",
  "Parsing and resolving the same source always gives the same tree or the same errors, in the same order, and does nothing else: the library does no input or output, reads no environment, clock, randomness or global mutable state, and never lets the order of an unordered collection reach a result.",
  ["inputs", "histories", "configurations"], "all source texts, all processes, platforms and previous calls",
  "A test run observes one process with one hash seed and one history; dependence on hidden state shows only across runs.",
  [SC, PA, RE, AST, ERR], [("keyed hash maps used only by lookup", "src/resolver.rs scopes, src/scanner.rs KEYWORDS"), ("insertion-ordered map literals", "src/ast.rs Map")],
  observe=["returned tree/errors"])
P("T04", "No unsafe code in the crate",
  "Whatever the input, the crate cannot corrupt memory: neither the library nor the command line tool contains or expands to any unsafe operation of its own, so every access is checked by the language.",
  ["inputs"], "all inputs",
  "Tests do not observe out-of-bounds reads or undefined behaviour that happens to give the expected result.",
  ["src/lib.rs", SC, PA, RE, MA, AST, ENV], [("safe Rust only", "every file of src/")], observe=["absence of undefined behaviour"])

# ---------------------------------------------------------------- lexical level
P("L01", "Every operator, punctuation mark and keyword becomes its own token",
  "Each operator or punctuation spelling and each reserved word of the language is always scanned as its own kind of token, preferring the longer operator ('==', '!=', '<=', '>=') when both fit. Reserved words are exactly: and break class continue else false for fun if nil or print return super this true var while; every other word starting with a letter or underscore is an identifier.",
  ["inputs"], "all source texts and all positions in them",
  "Tests scan most spellings once, alone; several operators ('>=', '>', ':', ';', '*', '/', ',') and combinations are never scanned in isolation.",
  [SC, TK], [("grapheme dispatch", "src/scanner.rs Scanner::scan_token"), ("reserved words", "src/scanner.rs KEYWORDS, scan_identifier")], observe=["token kinds of Scanner::scan_tokens"])
P("L02", "Indent and outdent tokens always balance and the end marker is last",
  "In every token sequence returned, each block-opening indent has exactly one matching later outdent, no outdent appears without an open indent, and blocks still open at the end of the input are closed there. The sequence ends with exactly one end-of-input token.",
  ["inputs"], "all source texts that scan without error",
  "The one indentation test opens and closes a single level; nothing tests several levels closing at once or open blocks at the end of input.",
  [SC], [("indentation stack", "src/scanner.rs Scanner::bol_indentation_tokens"), ("closing at end of input", "src/scanner.rs Scanner::close_all_blocks")],
  state=[("open block widths", "stack of indentation widths", "src/scanner.rs Scanner.indentation")], observe=["tokens of Scanner::scan_tokens"])
P("L03", "Block structure follows indentation width",
  "A line indented deeper than the innermost open block opens exactly one block unless the line continues the previous one; a line indented less closes exactly the blocks that are deeper than it, and is reported as an error when it then matches no open level. Blank lines never open or close blocks. (Widths above 65535 count as 65535.)",
  ["inputs"], "all source texts, all indentation histories",
  "Quantifies over histories of indentation widths; tests use one two-level example.",
  [SC], [("width comparison", "src/scanner.rs Scanner::bol_indentation_tokens"), ("counting leading spaces", "src/scanner.rs scan_token ' ' and newline cases")],
  state=[("leading spaces", "width of the current line's indentation", "src/scanner.rs Scanner.bol_spaces")], observe=["Indent/Outdent tokens and errors"])
P("L04", "A newline ends a statement unless the line is blank or continues",
  "Each line holding at least one token and ended by a line break is followed by exactly one terminator, except when its last token is an opening bracket, comma, colon, dot, arithmetic operator or ordering comparison, or when a backslash ends the line: then the next non-blank line continues it and opens no block. Blank lines in between change nothing.",
  ["inputs"], "all source texts and sequences of lines",
  "Tests try '+' and backslash as continuations; the set of continuing tokens and its interaction with blank lines is not covered.",
  [SC], [("continuation flags", "src/scanner.rs scan_token, reset_line")],
  state=[("continuation flags", "whether the current/next line continues the previous one", "src/scanner.rs Scanner.is_line_continuation/following_line_continuation")], observe=["Terminator tokens"])
P("L05", "Comments and trailing blanks never change the result",
  "A '//' comment extends to the end of its line and produces no token, error or block of its own: removing a comment, or adding spaces or a comment at the end of a line, leaves the token kinds and texts unchanged. A line holding only a comment behaves like a blank line.",
  ["inputs"], "all source texts, all places a comment or trailing space may stand",
  "Tests place comments at the end of simple lines only; the failures (after a trailing operator, at another indentation) need specific context.",
  [SC], [("comment scanning", "src/scanner.rs scan_token '/' case, advance_to_eol")], observe=["tokens of Scanner::scan_tokens"])
P("L06", "CRLF line endings mean the same as LF",
  "Ending lines with carriage return and newline instead of newline changes no token kind, position, block or error: both end comments, statements and continued lines and advance the line count.",
  ["inputs"], "all source texts, all line-ending choices",
  "No test contains a carriage return.",
  [SC], [("newline handling", "src/scanner.rs scan_token, advance_to_eol, scan_string, is_newline")], observe=["tokens of Scanner::scan_tokens"])
P("L07", "Tokens and lexical errors carry their exact start position",
  "Every token carries the line and column (1-based, counted in user-perceived characters, saturating at the counter's limit) at which its text starts, also for strings spanning lines and for tokens after them. Lexical errors carry the position of the offending character, and an unterminated string the position of the end of input.",
  ["inputs"], "all source texts, in particular multi-line strings and multi-byte characters",
  "Tests check positions of short single-line inputs; columns after multi-line strings or errors are rarely checked.",
  [SC, SL], [("position counters", "src/scanner.rs advance/reset_line/scan_string/add_token")],
  state=[("line, column, start column", "current position", "src/scanner.rs Scanner.line/column/start_column")], observe=["Token.line/column", "ParseErrorCause.source_loc"])
P("L08", "Token text and literal values are exactly what was written",
  "A token's text is exactly the source slice it was scanned from; a string literal's value is the text between its quotes, unmodified, and a number's value is the decimal value of exactly its digits and optional fraction. Identifiers extend over all following letters, digits and underscores, numbers over all following digits and at most one fraction.",
  ["inputs"], "all literals and identifiers, including multi-line and non-ASCII ones",
  "Tests check about ten literals.",
  [SC], [("slicing and scanning", "src/scanner.rs scan_string/scan_number/scan_identifier/add_token")], observe=["Token.lexeme/string_literal/float_literal"])
P("L09", "Every lexical error is reported and none is survivable",
  "Each tab, unexpected character, stray backslash, unterminated string and inconsistent outdent adds exactly one error, in source order, and nothing else does. If there is any error, scanning returns exactly those errors and no tokens; otherwise it returns the tokens.",
  ["inputs"], "all source texts with any number of lexical errors",
  "One test has a single lexical error.",
  [SC], [("error list", "src/scanner.rs Scanner::error, scan_tokens")], observe=["Err of Scanner::scan_tokens"])
P("L10", "A parenthesis abuts only the token it directly touches",
  "An opening parenthesis is marked as abutting exactly when the character before it belongs to a token or error, with no space, line break, line continuation or start of input between.",
  ["inputs"], "all source texts",
  "Two parser tests distinguish 'f(' from 'f ('; line starts, continuations and brackets are not tried.",
  [SC, TK], [("abutting flag", "src/scanner.rs scan_token")],
  state=[("is_abutting", "previous character was part of a token", "src/scanner.rs Scanner.is_abutting")], observe=["LeftParen vs LeftParenAbutting"])

# ---------------------------------------------------------------- syntax
P("P01", "Operator precedence and associativity",
  "Expressions group by the levels, loosest first: assignment (right associative), or, and, equality, ordering comparison, addition/subtraction, multiplication/division (all left associative), unary (prefix, nestable), call/member/index (postfix, left to right). This holds for every combination and nesting of operators.",
  ["inputs"], "all expressions",
  "Tests contain one expression with two operators of different levels and none with two of the same level.",
  [PA], [("one rule per level", "src/parser.rs assignment/or/and/equality/comparison/addition/multiplication/unary/call")], observe=["tree of parser::parse_expression"])
P("P02", "Each operator token builds its own node with operands in source order",
  "Every unary, binary and logical operator produces the tree node for that operator and no other, with the left and right operand in the order written.",
  ["inputs"], "all operator expressions",
  "Tests check '+', '==', unary '-' and '!'; eight binary and both logical operators are unchecked.",
  [PA], [("operator tables", "src/parser.rs or/and/equality/comparison/addition/multiplication/unary")], observe=["tree of parser::parse_expression"])
P("P03", "Delimiters only close what was opened",
  "Wherever the parser accepts an opening parenthesis, bracket, brace or indent, it succeeds only after consuming the matching closing token of the same kind at the same nesting; a block opened by an indent is never closed by a brace or the reverse.",
  ["inputs"], "all token sequences",
  "Tests use balanced inputs almost exclusively.",
  [PA], [("closing tokens required", "src/parser.rs consume/consume_begin_block/consume_end_block and callers")], observe=["Ok of parser::parse"])
P("P04", "break and continue are accepted only inside a loop body",
  "A break or continue statement is accepted exactly when it stands in the body of a loop of the same function; a function nested in a loop does not inherit it, and neither a finished loop nor a syntax error inside one leaves the parser believing it is still in a loop.",
  ["inputs", "histories"], "all programs, including those with errors earlier in the file",
  "Tests try break directly inside and outside loops; nested functions and failed loop bodies before a stray break are not tried.",
  [PA], [("loop depth", "src/parser.rs loop_body_statement/function_definition/finish_break_statement/finish_continue_statement")],
  state=[("loop depth", "number of enclosing loops", "src/parser.rs Parser.in_loops")], observe=["errors of parser::parse"])
P("P05", "Only variables, properties and elements can be assigned",
  "An assignment is accepted exactly when its left side is a variable other than 'this', a property access or an index access, and builds the corresponding assignment node with the target's parts unchanged; any other target is an error at the '='.",
  ["inputs"], "all assignment expressions",
  "Tests assign to a variable and an element; invalid targets are never tried.",
  [PA], [("target classification", "src/parser.rs assignment")], observe=["tree/errors of parser::parse"])
P("P06", "A successful parse has accounted for every token",
  "Parsing succeeds only if every token up to the end of input was consumed as part of the returned statements or as required punctuation: nothing is skipped, and each simple statement must be ended by its terminator. The returned statements appear in source order.",
  ["inputs"], "all token sequences",
  "Tests compare a few complete trees; silently dropping a token or statement in some other context would go unnoticed.",
  [PA], [("terminators required", "src/parser.rs expression_statement/finish_*_statement/finish_var_declaration"), ("end of input required", "src/parser.rs parse/parse_expression")], observe=["Ok of parser::parse"])
P("P07", "Syntax errors are never lost and never come with a tree",
  "If any statement contains a syntax error the result is an error containing one cause for each failed statement, in source order; a tree is returned only when there was no error at all. An error found inside a nested construct always reaches the result unchanged.",
  ["inputs"], "all malformed programs",
  "Tests check a single error at a time and only at the top level.",
  [PA, ERR], [("error propagation and collection", "src/parser.rs parse and every fallible rule")], observe=["Err of parser::parse"])
P("P08", "At most 255 parameters and 255 arguments",
  "A function with more than 255 parameters and a call, with or without parentheses, with more than 255 arguments are always rejected, and up to 255 are accepted.",
  ["inputs"], "all parameter and argument lists",
  "No test comes near the limit.",
  [PA], [("limit checks", "src/parser.rs function_definition/finish_call/finish_call_without_parens")], observe=["errors of parser::parse"])
P("P09", "Map literals keep every entry in order and reject duplicate keys",
  "A map literal, braced, indented or bare, contains exactly its written entries, each key (identifier or string) bound to its own value, in source order; a repeated key, whether written as identifier or string, is an error at the repeated key. Entries may be separated by a comma or a line break, and trailing commas are allowed.",
  ["inputs"], "all map literals",
  "Tests use two distinct keys; equality of maps ignores order, so order is not observed at all.",
  [PA, AST], [("entry loop", "src/parser.rs literal_map"), ("insertion-ordered map", "src/ast.rs Map, FnvIndexMap")], observe=["tree of parser::parse"])
P("P10", "for loops mean their while-loop expansion",
  "A for loop with an initializer yields a block of its own holding the initializer followed by the loop, and one without yields just the loop; the loop has the written condition (true when omitted), the written body, and the increment (if any) run after each iteration's body.",
  ["inputs"], "all for statements with every combination of omitted parts",
  "Tests cover two of the eight combinations of present and omitted parts.",
  [PA], [("desugaring", "src/parser.rs finish_for_statement")], observe=["tree of parser::parse"])
P("P11", "Statements build the node for their keyword with all their parts",
  "Each if, else, while, print, return, var, break, continue, block and expression statement yields its own kind of node holding exactly its written condition, body, branches, name and value, with nil for an omitted value. The bodies of if, else and loops may each be an indented block, a braced block or a single statement, and an else belongs to the nearest unfinished if.",
  ["inputs"], "all statements and nestings",
  "Tests cover if without else, while, for and print; else, return without value, var without value and braced bodies are not covered.",
  [PA], [("statement rules", "src/parser.rs declaration/statement/finish_*")], observe=["tree of parser::parse"])
P("P12", "Calls, member access and indexing chain left to right",
  "After a primary expression, '.name', '(arguments)' touching it, '[index]' and juxtaposed arguments each wrap everything before them, in order; an abutting parenthesis encloses the whole argument list, while a parenthesis after a space starts the first argument of a call without parentheses. Arguments appear in the call in the order written.",
  ["inputs"], "all postfix chains and argument lists",
  "Tests use single calls with at most two arguments and no chains.",
  [PA], [("postfix loop", "src/parser.rs call/finish_call/finish_call_without_parens/finish_get_index")], observe=["tree of parser::parse"])
P("P13", "Only a REPL line may omit the final line break",
  "When parsing a file or a single expression, an expression statement must be ended by a line break; when parsing a REPL line the end of input is accepted instead, and only there. In every other respect a REPL line parses exactly like a file.",
  ["inputs", "configurations"], "all inputs in both modes",
  "No test parses a REPL line.",
  [PA], [("mode flag", "src/parser.rs with_trailing_expression/expression_statement")],
  state=[("mode", "trailing expression allowed", "src/parser.rs Parser.allow_trailing_expression")], observe=["parser::parse vs parser::parse_repl_line"])
P("P14", "After a syntax error parsing resumes at the next statement keyword",
  "After a statement with a syntax error the parser always moves forward and resumes exactly at the next class, fun, var, for, if, while, print or return keyword, without consuming it, or at the end of input.",
  ["inputs"], "all malformed programs",
  "No test has anything after the first error.",
  [PA], [("recovery", "src/parser.rs synchronize, parse")], observe=["causes of parser::parse"])
P("P15", "Syntax errors point at the offending token",
  "A missing or unexpected token is reported at the position, and with the text, of the token found in its place; an invalid assignment at its '='; a duplicate key, surplus parameter or misplaced break/continue at that key, parameter or keyword.",
  ["inputs"], "all syntax errors",
  "Two tests look at error positions.",
  [PA, ERR, SL], [("error construction", "src/parser.rs error_from_peek/error_from_last/new_with_location")], observe=["ParseErrorCause.source_loc/token"])
P("P16", "Functions and classes keep their names, parameters, bodies and kinds",
  "A function yields its name, its parameters and its body statements, complete and in order. A class yields its name, its superclass if one is written, and all its methods in order, each marked as initializer (named init), class method (prefixed by class) or ordinary method, while other functions are plain.",
  ["inputs"], "all function and class declarations and function expressions",
  "One test declares a function without parameters; no test declares a class.",
  [PA, AST], [("declaration rules", "src/parser.rs finish_class_declaration/finish_fun_declaration/function_definition")], observe=["tree of parser::parse"])
P("P17", "Tree nodes carry the position of their defining token",
  "Every position in the tree is that of the token that introduces the node: the operator of unary, binary and assignment nodes, the opening delimiter or dot of calls, indexing and member access (the first argument of a call without parentheses), the name of variables, declarations and parameters, the keyword of function expressions, super, break, continue and return.",
  ["inputs"], "all programs",
  "Tests check positions for about a third of the node kinds, always on the first line or two.",
  [PA, SL], [("position propagation", "src/parser.rs matches/peek_source_loc/consume_identifier")], observe=["SourceLoc fields of the tree"])
P("P18", "Literals, groupings and arrays become themselves",
  "Each literal yields a node with exactly its value: true, false, nil, the number scanned, the text between the quotes; a parenthesised expression yields a grouping of it, and an array literal its elements, complete and in order, with one trailing comma allowed. Names and 'this' yield a reference to that name; anything else where an expression is expected is an error.",
  ["inputs"], "all primary expressions",
  "Tests cover single literals and arrays of two numbers.",
  [PA], [("primary rule", "src/parser.rs primary")], observe=["tree of parser::parse_expression"])

# ---------------------------------------------------------------- name resolution
P("R01", "Resolution visits the whole tree and binds every name in it",
  "When resolution succeeds, every variable reference, assignment, super reference and variable declaration anywhere in the program, at any depth, has received its binding, and nothing else in the tree has changed.",
  ["inputs", "programs"], "all trees the parser can produce",
  "No test runs the resolver.",
  [RE, AST], [("traversal", "src/resolver.rs resolve_statement/resolve_expression/resolve_class/resolve_function")], observe=["tree of Resolver::resolve"])
P("R02", "A name binds to the innermost enclosing declaration",
  "A name refers to the nearest enclosing scope in which it is declared at that point; its binding is the number of scopes between use and declaration and the declaration's slot. A name declared nowhere binds to a global of that name, which is the same variable as a global of that name used or declared later.",
  ["inputs", "programs"], "all programs and nesting depths",
  "No test runs the resolver.",
  [RE, ENV], [("scope search", "src/resolver.rs resolve_local_variable/forward_reserve_global_var")],
  state=[("scopes", "stack of name tables", "src/resolver.rs Resolver.scopes")], observe=["VarLoc in the tree"])
P("R03", "Variables of one scope never share a slot",
  "Distinct names declared in one scope always get distinct slots, numbered from 0 in order of first appearance, and a declaration records the very slot its uses are bound to. A scope that runs out of slots gives an error instead of reusing one.",
  ["inputs", "programs"], "all programs, including scopes with hundreds of names",
  "No test runs the resolver, least of all with more than 256 names.",
  [RE, ENV], [("slot allocation and limit", "src/resolver.rs declare/define/forward_reserve_global_var/ensure_scope_index_limit")], observe=["SlotIndex/VarLoc in the tree"])
P("R04", "Scopes open and close exactly with their constructs",
  "A block opens one scope; a function opens one scope shared by its parameters and body; a class opens one scope holding 'this', inside another holding 'super' when it has a superclass; nothing else opens a scope. Each is closed when its construct ends, also when an error is found inside.",
  ["inputs", "programs"], "all programs, including erroneous ones",
  "No test runs the resolver.",
  [RE], [("begin/end scope pairing", "src/resolver.rs resolve_statement/resolve_class/resolve_function")], observe=["VarLoc distances", "later resolutions with the same resolver"])
P("R05", "this, super and return are only accepted where they mean something",
  "'this' outside a class, 'super' outside a class or in a class without superclass, return outside any function, and returning a value (other than nil) from a method named init are always rejected, however deeply nested, and are accepted otherwise. The nearest enclosing class or function decides.",
  ["inputs", "programs"], "all nestings of classes and functions",
  "No test runs the resolver.",
  [RE], [("context tracking", "src/resolver.rs class_type/function_type handling")],
  state=[("class and function context", "kind of nearest enclosing class/function", "src/resolver.rs Resolver.class_type/function_type")], observe=["errors of Resolver::resolve"])
P("R06", "Redeclaration and self-reference rules",
  "Declaring a name twice in the same non-global scope (variables, functions, classes and parameters alike) is an error; redeclaring a global is allowed and keeps its slot. Reading a variable in its own initializer, in the same scope, is an error, as is a class inheriting from itself.",
  ["inputs", "programs"], "all programs",
  "No test runs the resolver.",
  [RE], [("declaration states", "src/resolver.rs declare/define, Expr::Variable case, resolve_class")],
  state=[("declaration state", "undefined/declared/defined per name", "src/resolver.rs VarResolveState")], observe=["errors of Resolver::resolve"])
P("R07", "A rejected program leaves the resolver ready for the next one",
  "After an error a resolver is back at the global scope, outside any class or function, with no variable left half-declared, so that a following REPL line is judged by the same rules as if the rejected line had failed nowhere.",
  ["histories"], "all sequences of accepted and rejected REPL lines",
  "No test resolves two programs with one resolver.",
  [RE], [("state restored on every exit", "src/resolver.rs resolve_statement/resolve_class/resolve_function")], observe=["second call of Resolver::resolve"])
P("R08", "Every top-level statement is resolved and every failure reported",
  "Resolution examines every top-level statement, in order, also after one of them failed, and reports one error per failing statement in source order; it returns the program only if none failed, with the statements complete and in order.",
  ["inputs", "programs"], "all programs with any number of resolution errors",
  "No test runs the resolver.",
  [RE], [("error collection", "src/resolver.rs Resolver::resolve")], observe=["result of Resolver::resolve"])

P("R09", "Resolution errors name the offending word and its place",
  "Every resolution error carries the line and column of the construct that caused it (the use of a name, the declaration that repeats one, the return) and shows the text of that construct: the name as written, or the word this, super or return.",
  ["inputs", "programs"], "all programs with resolution errors",
  "No test looks at a resolution error.",
  [RE, ERR], [("error construction", "src/resolver.rs ParseErrorCause::new_with_location call sites")], observe=["errors of Resolver::resolve"])

# ---------------------------------------------------------------- surfaces
P("C01", "The exit status tells whether the file was accepted",
  "Running the tool on a file (a command line that names one, whatever its name) exits with status 0 when the program parses and resolves, and with status 65 when it has any syntax or resolution error.",
  ["inputs", "configurations"], "all readable source files",
  "main.rs has no tests.",
  [MA], [("exit code", "src/main.rs main/run_file/run")], observe=["process exit status"])
P("C02", "The REPL survives bad lines and ends with its input",
  "The interactive prompt (started exactly when no file is named) keeps going after any erroneous line, parses each line on its own as a REPL line (so a trailing expression is accepted and its tree shown), shares one set of global declarations across all lines, and stops when its input ends or cannot be read.",
  ["histories", "fault_sequences"], "all sequences of lines, read errors and end of input",
  "main.rs has no tests.",
  [MA], [("read loop", "src/main.rs run_repl")], observe=["process behaviour on standard input"])
P("C03", "Trees go to standard output, every diagnostic to standard error",
  "For an accepted program the whole tree and nothing else is printed to standard output. For a rejected one, every cause is printed to standard error, in order, one line each with its line, column, token text (if it has one) and message, and no tree is printed.",
  ["inputs"], "all programs",
  "main.rs has no tests.",
  [MA], [("result printing", "src/main.rs print_result/print_parse_error/report_error/report_error_at_token")], observe=["stdout/stderr"])
P("W01", "The WebAssembly entry point gives the library's result",
  "The JavaScript-facing parse function returns the serialised statements exactly when parsing and resolving the given source as a file both succeed, and otherwise throws an error carrying the text of all causes.",
  ["inputs"], "all source texts",
  "The wasm module has no tests and is not executed by any.",
  [WA, PA, RE], [("pipeline", "src/wasm.rs wasm_parse_string")], observe=["parseString"])
P("W02", "Serialised trees are complete and ordered",
  "Serialisation emits every field of every tree node under its own name, every kind of node under its own name, and every map entry in source order: nothing is skipped, renamed or merged.",
  ["inputs"], "all trees",
  "The serialisers are compiled only for wasm32 and never run by tests.",
  [AST, ENV, SL], [("derived serialisers", "src/ast.rs, src/environment.rs, src/source_loc.rs"), ("map serialiser", "src/ast.rs impl Serialize for Map")], observe=["value returned to JavaScript"])
P("E01", "The text of an error lists every cause with position and message",
  "Formatting an error yields one entry per cause, in order, each with the cause's line, column, offending token text (if it has one) and message.",
  ["inputs"], "all errors",
  "No test formats an error.",
  [ERR], [("Display", "src/error.rs")], observe=["to_string() of errors", "message of the JavaScript exception"])

def main():
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
    with open(OUT, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS), "properties")
if __name__ == "__main__":
    main()
