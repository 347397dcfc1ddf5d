from mutants_cli import M, X, LOOP, MATCH, READ, RUNF, ATT, DC, DE
PR = '''    match result {
        Ok(value) => {
            if print_success {
                println!("{:#?}", value.statements);
            }
        }
        Err(e) => {
            match e {
                RunError::RunParseError(err) => {
                    // Print all causes.
                    for cause in err.causes.iter() {
                        print_parse_error(cause);
                    }
                }
            }
        }
    }
'''
PPE = '''    match error.token {
        None => report_error(&error.source_loc, &error.message),
        Some(ref token) => {
            report_error_at_token(&error.source_loc, token, &error.message)
        }
    }
'''
RL = '''        let mut input = String::new();
        match stdin.lock().read_line(&mut input) {
            // End of input.
            Ok(0) => break,
            Ok(_) => {
                let result = run(&mut resolver, input, true);
                print_result(&result, true);
            }
            Err(error) => {
                println!("Error reading stdin: {:?}", error);
                break;
            }
        }
'''
RUN = '''    let ast = if for_repl {
        parser::parse_repl_line(&source)
    } else {
        parser::parse(&source)
    }?;
    let code = resolver.resolve(ast)?;

    Ok(code)
'''
OPENF = '''    let mut file = File::open(file_path)
        .unwrap_or_else(|_| panic!("source file not found: {}", file_path));
    let mut contents = String::new();
    file.read_to_string(&mut contents)
        .unwrap_or_else(|_| panic!("unable to read file: {}", file_path));
'''
EDITS = [
    ('if-let-exit', [(M, MATCH, '        if let Err(RunError::RunParseError(_)) = run_result {\n            process::exit(65);\n        }\n')], None),
    ('is-err-exit', [(M, MATCH, '        if run_result.is_err() {\n            process::exit(65);\n        }\n')], None),
    ('code-const', [(M, 'process::exit(65)', 'process::exit(EXIT_DATA)'), (M, 'type Ast =', 'const EXIT_DATA: i32 = 65;\ntype Ast =')], None),
    ('code-local', [(M, MATCH, '        let code = match run_result {\n            Ok(_) => 0,\n            Err(_) => 65,\n        };\n        if code != 0 {\n            process::exit(code);\n        }\n')], None),
    ('exit-zero', [(M, MATCH, '        process::exit(match run_result {\n            Ok(_) => 0,\n            Err(_) => 65,\n        });\n')], None),
    ('exit-code', [(M, 'fn main() {', 'fn main() -> process::ExitCode {'), (M, MATCH, '        if run_result.is_err() {\n            return process::ExitCode::from(65);\n        }\n'),
                   (M, '        run_repl();\n    }\n', '        run_repl();\n    }\n    process::ExitCode::SUCCESS\n')], None),
    ('map-or', [(M, MATCH, '        let code = run_result.map_or(65, |_| 0);\n        if code != 0 {\n            process::exit(code);\n        }\n')], None),
    ('empty-flip', [(M, 'if !script_filename.is_empty() {', 'if script_filename.is_empty() {\n        run_repl();\n    } else {'), (M, '    } else {\n        run_repl();\n    }\n', '    }\n')], None),
    ('while-read', [(M, RL, RL.replace('            // End of input.\n            Ok(0) => break,\n            Ok(_) => {', '            Ok(n) => {\n                if n == 0 {\n                    break;\n                }'))], None),
    ('hoist-clear', [(M, '    let mut resolver = Resolver::new();\n    loop {', '    let mut resolver = Resolver::new();\n    let mut input = String::new();\n    loop {\n        input.clear();'),
                     (M, '        let mut input = String::new();\n        match stdin', '        match stdin'),
                     (M, 'run(&mut resolver, input, true)', 'run(&mut resolver, input.clone(), true)')], None),
    ('helper-line', [(M, RL, '        match read_line() {\n            Ok(None) => break,\n            Ok(Some(input)) => {\n                let result = run(&mut resolver, input, true);\n                print_result(&result, true);\n            }\n            Err(error) => {\n                println!("Error reading stdin: {:?}", error);\n                break;\n            }\n        }\n'),
                     (M, '    let stdin = io::stdin();\n', ''),
                     (M, 'fn run_repl() {', 'fn read_line() -> io::Result<Option<String>> {\n    let mut s = String::new();\n    let n = io::stdin().lock().read_line(&mut s)?;\n    Ok(if n == 0 { None } else { Some(s) })\n}\n\nfn run_repl() {')], None),
    ('prompt-fn', [(M, '        print!("> ");\n        io::stdout()\n            .flush()\n            .expect("run_repl: unable to flush stdout");\n', '        prompt();\n'),
                   (M, 'fn run_repl() {', 'fn prompt() {\n    let mut out = io::stdout().lock();\n    write!(out, "> ").expect("write");\n    out.flush().expect("run_repl: unable to flush stdout");\n}\n\nfn run_repl() {')], None),
    ('while-let', [(M, RL, '        let mut input = String::new();\n        let read = stdin.lock().read_line(&mut input);\n        if let Err(error) = &read {\n            println!("Error reading stdin: {:?}", error);\n        }\n        if !matches!(read, Ok(n) if n > 0) {\n            break;\n        }\n        let result = run(&mut resolver, input, true);\n        print_result(&result, true);\n')], None),
    ('stdin-read-line', [(M, 'stdin.lock().read_line', 'stdin.read_line')], None),
    ('lock-once', [(M, 'let stdin = io::stdin();', 'let mut stdin = io::stdin().lock();'), (M, 'stdin.lock().read_line', 'stdin.read_line')], None),
    ('run-match', [(M, RUN, '    let parsed = if for_repl {\n        parser::parse_repl_line(&source)\n    } else {\n        parser::parse(&source)\n    };\n    match parsed {\n        Ok(ast) => match resolver.resolve(ast) {\n            Ok(code) => Ok(code),\n            Err(e) => Err(RunError::RunParseError(e)),\n        },\n        Err(e) => Err(e.into()),\n    }\n')], None),
    ('run-and-then', [(M, RUN, '    let parse = if for_repl { parser::parse_repl_line } else { parser::parse };\n    parse(&source)\n        .and_then(|ast| resolver.resolve(ast))\n        .map_err(RunError::RunParseError)\n')], None),
    ('run-str', [(M, 'source: String,', 'source: &str,'), (M, 'parser::parse_repl_line(&source)', 'parser::parse_repl_line(source)'), (M, 'parser::parse(&source)', 'parser::parse(source)'),
                 (M, 'run(&mut resolver, input, true)', 'run(&mut resolver, &input, true)'), (M, 'run(&mut resolver, contents, false)', 'run(&mut resolver, &contents, false)')], None),
    ('fs-read', [(M, OPENF, '    let contents = std::fs::read_to_string(file_path)\n        .unwrap_or_else(|_| panic!("unable to read file: {}", file_path));\n')], None),
    ('open-match', [(M, OPENF, '    let mut file = match File::open(file_path) {\n        Ok(file) => file,\n        Err(_) => panic!("source file not found: {}", file_path),\n    };\n    let mut contents = String::new();\n    if file.read_to_string(&mut contents).is_err() {\n        panic!("unable to read file: {}", file_path);\n    }\n')], None),
    ('print-err-let', [(M, PR, '    if let Err(RunError::RunParseError(err)) = result {\n        for cause in &err.causes {\n            print_parse_error(cause);\n        }\n        return;\n    }\n    if let Ok(value) = result {\n        if print_success {\n            println!("{:#?}", value.statements);\n        }\n    }\n')], None),
    ('print-index', [(M, LOOP, '                    let mut i = 0;\n                    while i < err.causes.len() {\n                        print_parse_error(&err.causes[i]);\n                        i += 1;\n                    }\n')], None),
    ('print-range', [(M, LOOP, '                    for i in 0..err.causes.len() {\n                        print_parse_error(&err.causes[i]);\n                    }\n')], None),
    ('print-enumerate', [(M, LOOP, '                    for (_i, cause) in err.causes.iter().enumerate() {\n                        print_parse_error(cause);\n                    }\n')], None),
    ('print-for-each', [(M, LOOP, '                    err.causes.iter().for_each(print_parse_error);\n')], None),
    ('print-for-each-closure', [(M, LOOP, '                    err.causes.iter().for_each(|cause| print_parse_error(cause));\n')], None),
    ('print-slice', [(M, LOOP, '                    print_causes(&err.causes);\n'), (M, 'fn print_parse_error', 'fn print_causes(causes: &[ParseErrorCause]) {\n    for cause in causes {\n        print_parse_error(cause);\n    }\n}\n\nfn print_parse_error')], None),
    ('print-opt', [(M, PPE, '    let token = error.token.as_deref();\n    if let Some(token) = token {\n        report_error_at_token(&error.source_loc, token, &error.message)\n    } else {\n        report_error(&error.source_loc, &error.message)\n    }\n')], None),
    ('print-format', [(M, ATT, '        "{}",\n        format!("[line {}:{}] Error at \'{}\': {}", source_loc.line, source_loc.column, token, message)\n')], None),
    ('print-where', [(M, PPE, '    let place = match &error.token {\n        Some(token) => format!(" at \'{}\'", token),\n        None => String::new(),\n    };\n    eprintln!(\n        "[line {}:{}] Error{}: {}",\n        error.source_loc.line, error.source_loc.column, place, error.message\n    );\n'),
                     (M, 'fn report_error(', '#[allow(dead_code)]\nfn report_error('), (M, 'fn report_error_at_token(', '#[allow(dead_code)]\nfn report_error_at_token(')], None),
    ('print-pieces', [(M, PPE, '    eprint!("[line {}:{}] Error", error.source_loc.line, error.source_loc.column);\n    if let Some(token) = &error.token {\n        eprint!(" at \'{}\'", token);\n    }\n    eprintln!(": {}", error.message);\n'),
                      (M, 'fn report_error(', '#[allow(dead_code)]\nfn report_error('), (M, 'fn report_error_at_token(', '#[allow(dead_code)]\nfn report_error_at_token(')], None),
    ('print-writeln', [(M, '    eprintln!(\n        "[line {}:{}] Error: {}",\n        source_loc.line, source_loc.column, message\n    );', '    writeln!(\n        io::stderr(),\n        "[line {}:{}] Error: {}",\n        source_loc.line, source_loc.column, message\n    )\n    .expect("stderr");')], None),
    ('print-inline-args', [(M, ATT, '        "[line {line}:{column}] Error at \'{token}\': {message}",\n        line = source_loc.line, column = source_loc.column\n')], None),
    ('print-string', [(M, ATT, '        "{}", {\n            let mut s = String::from("[line ");\n            s.push_str(&source_loc.line.to_string());\n            s.push(\':\');\n            s.push_str(&source_loc.column.to_string());\n            s.push_str("] Error at \'");\n            s.push_str(token);\n            s.push_str("\': ");\n            s.push_str(message);\n            s\n        }\n')], None),
    ('write-string', [(M, ATT, '        "{}", {\n            use std::fmt::Write;\n            let mut s = String::new();\n            write!(s, "[line {}:{}] Error at \'{}\': ", source_loc.line, source_loc.column, token).unwrap();\n            s.push_str(message);\n            s\n        }\n')], None),
    ('disp-index', [(X, DE, '        let mut i = 0;\n        while i < self.causes.len() {\n            writeln!(f, "{}", self.causes[i])?;\n            i += 1;\n        }\n        Ok(())\n')], None),
    ('disp-try-for-each', [(X, DE, '        self.causes.iter().try_for_each(|cause| writeln!(f, "{}", cause))\n')], None),
    ('disp-direct', [(X, DE, '        for cause in self.causes.iter() {\n            cause.fmt(f)?;\n            f.write_str("\\n")?;\n        }\n        Ok(())\n')], None),
    ('disp-return', [(X, DE, '        for cause in &self.causes {\n            if let Err(e) = writeln!(f, "{}", cause) {\n                return Err(e);\n            }\n        }\n        Ok(())\n')], None),
    ('disp-parts', [(X, DC, '        write!(f, "{}:{}", self.source_loc.line, self.source_loc.column)?;\n        if let Some(token) = &self.token {\n            write!(f, " at {token:?}")?;\n        }\n        writeln!(f, ": {}", self.message)\n')], None),
    ('disp-match', [(X, DC, '        let loc = &self.source_loc;\n        match self.token.as_ref() {\n            Some(token) => writeln!(f, "{}:{} at {:?}: {}", loc.line, loc.column, token, self.message),\n            None => writeln!(f, "{}:{}: {}", loc.line, loc.column, self.message),\n        }\n')], None),
    ('disp-place', [(X, DC, '        let at = self.token.as_ref().map(|t| format!(" at {t:?}")).unwrap_or_default();\n        writeln!(f, "{}:{}{}: {}", self.source_loc.line, self.source_loc.column, at, self.message)\n')], None),
    ('disp-helper', [(X, 'writeln!(f, "{}", cause)?;', 'write_entry(f, cause)?;'), (X, 'impl std::error::Error for ParseError {}', 'fn write_entry(f: &mut std::fmt::Formatter<\'_>, cause: &ParseErrorCause) -> std::fmt::Result {\n    writeln!(f, "{cause}")\n}\n\nimpl std::error::Error for ParseError {}')], None),
    ('disp-loc', [(X, DC, '        write_loc(f, &self.source_loc)?;\n        match &self.token {\n            Some(token) => writeln!(f, " at {token:?}: {}", self.message),\n            None => writeln!(f, ": {}", self.message),\n        }\n'),
                  (X, 'impl std::error::Error for ParseError {}', 'fn write_loc(f: &mut dyn std::fmt::Write, l: &SourceLoc) -> std::fmt::Result {\n    write!(f, "{}:{}", l.line, l.column)\n}\n\nimpl std::error::Error for ParseError {}')], None),
    ('disp-own', [(X, 'writeln!(f, "{}", cause)?;', 'let text = cause.to_string();\n            writeln!(f, "{}", text)?;')], None),
    ('repl-shared', [(M, READ, '                handle(&mut resolver, input);\n'), (M, 'fn run_repl() {', 'fn handle(resolver: &mut Resolver, input: String) {\n    let result = run(resolver, input, true);\n    print_result(&result, true);\n}\n\nfn run_repl() {')], None),
    ('repl-struct', [(M, READ, '                session.line(input);\n'), (M, '    let mut resolver = Resolver::new();\n    loop {', '    let mut session = Session { resolver: Resolver::new() };\n    loop {'), (M, 'fn run_repl() {', 'struct Session {\n    resolver: Resolver,\n}\n\nimpl Session {\n    fn line(&mut self, input: String) {\n        let result = run(&mut self.resolver, input, true);\n        print_result(&result, true);\n    }\n}\n\nfn run_repl() {')], None),
    ('file-question', [(M, RUNF, '    let result = run(&mut resolver, contents, false);\n    print_result(&result, true);\n    let code = result?;\n    Ok(code)\n')], None),
    ('file-inspect', [(M, RUNF, '    match run(&mut resolver, contents, false) {\n        Ok(code) => {\n            let r = Ok(code);\n            print_result(&r, true);\n            r\n        }\n        Err(e) => {\n            let r = Err(e);\n            print_result(&r, true);\n            r\n        }\n    }\n')], None),
    ('stdout-lock', [(M, 'println!("{:#?}", value.statements);', 'let mut out = io::stdout().lock();\n                writeln!(out, "{:#?}", value.statements).expect("stdout");')], None),
    ('tree-format', [(M, 'println!("{:#?}", value.statements);', 'let text = format!("{:#?}", value.statements);\n                println!("{text}");')], None),
    ('name-eq', [(M, 'if !script_filename.is_empty() {', 'if script_filename != "" {')], None),
    ('name-len', [(M, 'if !script_filename.is_empty() {', 'if script_filename.len() > 0 {')], None),
    ('name-match', [(M, '''    if !script_filename.is_empty() {
        let run_result = run_file(&script_filename);

        match run_result {
            Ok(_) => (),
            Err(RunError::RunParseError(_)) => process::exit(65),
        }
    } else {
        run_repl();
    }''', '''    match script_filename.as_str() {
        "" => run_repl(),
        name => {
            if run_file(name).is_err() {
                process::exit(65);
            }
        }
    }''')], None),
    ('name-option', [(M, 'let mut script_filename = "".to_string();', 'let mut script_filename: Option<String> = None;'), (M, 'Store,\n', 'StoreOption,\n'), (M, 'Store}', 'StoreOption}'), (M, 'if !script_filename.is_empty() {', 'if let Some(script_filename) = script_filename.filter(|name| !name.is_empty()) {')], None),
    ('name-trim', [(M, '''    if !script_filename.is_empty() {
''', '''    let interactive = script_filename.is_empty();
    if !interactive {
''')], None),
]
