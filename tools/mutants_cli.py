M = 'src/main.rs'
X = 'src/error.rs'
LOOP = '''                    for cause in err.causes.iter() {
                        print_parse_error(cause);
                    }
'''
MATCH = '''        match run_result {
            Ok(_) => (),
            Err(RunError::RunParseError(_)) => process::exit(65),
        }
'''
READ = '''                let result = run(&mut resolver, input, true);
                print_result(&result, true);
'''
RUNF = '''    let result = run(&mut resolver, contents, false);
    print_result(&result, true);

    result
'''
ATT = '''        "[line {}:{}] Error at '{}': {}",
        source_loc.line, source_loc.column, token, message
'''
DC = '''        if let Some(token) = &self.token {
            writeln!(
                f,
                "{}:{} at {token:?}: {}",
                self.source_loc.line, self.source_loc.column, self.message
            )
        } else {
            writeln!(
                f,
                "{}:{}: {}",
                self.source_loc.line, self.source_loc.column, self.message
            )
        }
'''
DE = '''        for cause in &self.causes {
            writeln!(f, "{}", cause)?;
        }
        Ok(())
'''
EDITS = [
    # C01
    ('status-70', [(M, 'process::exit(65)', 'process::exit(70)')], 'C01'),
    ('status-never', [(M, 'Err(RunError::RunParseError(_)) => process::exit(65),', 'Err(_) => (),')], 'C01'),
    ('status-many', [(M, 'Err(RunError::RunParseError(_)) => process::exit(65),',
                      'Err(RunError::RunParseError(e)) => process::exit(64 + e.causes.len() as i32),')], 'C01'),
    ('status-some', [(M, 'Err(RunError::RunParseError(_)) => process::exit(65),',
                      'Err(RunError::RunParseError(e)) => { if e.causes.iter().next().is_some_and(|c| c.token.is_some()) { process::exit(65) } }')],
     'C01'),
    ('file-as-repl', [(M, 'run(&mut resolver, contents, false)', 'run(&mut resolver, contents, true)')], 'C01'),
    ('panic-late', [(M, 'print_result(&result, true);\n\n    result', 'print_result(&result, true);\n    if let Ok(ref c) = result { assert!(!c.statements.is_empty()); }\n    result')],
     'C01'),
    ('parse-twice', [(M, RUNF, RUNF.replace('    result\n', '    if result.is_err() { return Ok(whitespace::ast::ResolvedCode { statements: vec![] }); }\n    result\n'))], 'C01'),
    # C02
    ('repl-stop-on-error', [(M, READ, READ + '                if result.is_err() {\n                    break;\n                }\n')], 'C02'),
    ('repl-fresh', [(M, '                let result = run(&mut resolver, input, true);',
                     '                let mut resolver = Resolver::new();\n                let result = run(&mut resolver, input, true);')], 'C02'),
    ('repl-fresh-on-error', [(M, READ, READ + '                if result.is_err() {\n                    resolver = Resolver::new();\n                }\n')],
     'C02'),
    ('repl-eof-continue', [(M, 'Ok(0) => break,', 'Ok(0) => continue,')], 'C02'),
    ('repl-err-continue', [(M, 'Err(error) => {\n                println!("Error reading stdin: {:?}", error);\n                break;',
                            'Err(error) => {\n                println!("Error reading stdin: {:?}", error);')], 'C02'),
    ('repl-accumulate', [(M, '    let mut resolver = Resolver::new();\n    loop {', '    let mut resolver = Resolver::new();\n    let mut input = String::new();\n    loop {'),
                         (M, '        let mut input = String::new();\n        match stdin', '        match stdin'),
                         (M, 'run(&mut resolver, input, true)', 'run(&mut resolver, input.clone(), true)')], 'C02'),
    ('repl-unwrap', [(M, READ, READ + '                let _ = result.ok().unwrap();\n')], 'C02'),
    ('repl-short', [(M, 'Ok(0) => break,', 'Ok(0) | Ok(1) => break,')], 'C02'),
    # C03
    ('one-cause', [(M, LOOP, LOOP.replace('.iter()', '.iter().take(1)'))], 'C03'),
    ('first-cause', [(M, LOOP, '                    if let Some(cause) = err.causes.first() {\n                        print_parse_error(cause);\n                    }\n')], 'C03'),
    ('last-break', [(M, LOOP, LOOP.replace('print_parse_error(cause);', 'print_parse_error(cause);\n                        if cause.token.is_some() { break; }'))], 'C03'),
    ('skip-first', [(M, LOOP, LOOP.replace('err.causes.iter()', 'err.causes[1..].iter()'))], 'C03'),
    ('reversed', [(M, LOOP, LOOP.replace('.iter()', '.iter().rev()'))], 'C03'),
    ('index-off', [(M, LOOP, '''                    let mut i = 0;
                    while i + 1 < err.causes.len() {
                        print_parse_error(&err.causes[i]);
                        i += 1;
                    }
''')], 'C03'),
    ('swap-loc', [(M, ATT, ATT.replace('source_loc.line, source_loc.column', 'source_loc.line, source_loc.line'))], 'C03'),
    ('no-token', [(M, ATT, '''        "[line {}:{}] Error: {}",
        source_loc.line, source_loc.column, message
''')], 'C03'),
    ('no-message', [(M, ATT, '''        "[line {}:{}] Error at '{}'",
        source_loc.line, source_loc.column, token
''')], 'C03'),
    ('col-plus', [(M, ATT, ATT.replace('source_loc.column,', 'source_loc.column + 1,'))], 'C03'),
    ('trunc', [(M, ATT, ATT.replace("{}\",", "{:.60}\","))], 'C03'),
    ('no-newline', [(M, '    eprintln!(\n        "[line {}:{}] Error: {}",', '    eprint!(\n        "[line {}:{}] Error: {}",')], 'C03'),
    ('to-stdout', [(M, '    eprintln!(\n        "[line {}:{}] Error: {}",', '    println!(\n        "[line {}:{}] Error: {}",')], 'C03'),
    ('tree-stderr', [(M, 'println!("{:#?}", value.statements)', 'eprintln!("{:#?}", value.statements)')], 'C03'),
    ('banner', [(M, 'println!("{:#?}", value.statements)', 'println!("Parsed:\\n{:#?}", value.statements)')], 'C03'),
    ('file-quiet', [(M, RUNF, RUNF.replace('true);', 'false);'))], 'C03'),
    ('tree-nonempty', [(M, 'if print_success {', 'if print_success && value.statements.len() > 1 {')], 'C03'),
    ('repl-only-errors', [(M, READ, READ.replace('print_result(&result, true)', 'print_result(&result, result.is_err())'))], 'C03'),
    ('twice', [(M, READ, READ + '                print_result(&result, true);\n')], 'C03'),
    # E01
    ('disp-one', [(X, 'for cause in &self.causes {', 'for cause in self.causes.iter().take(1) {')], 'E01'),
    ('disp-two', [(X, DE, '        for (i, cause) in self.causes.iter().enumerate() {\n            if i > 1 {\n                break;\n            }\n            writeln!(f, "{}", cause)?;\n        }\n        Ok(())\n')], 'E01'),
    ('disp-rev', [(X, 'for cause in &self.causes {', 'for cause in self.causes.iter().rev() {')], 'E01'),
    ('disp-msg', [(X, 'writeln!(f, "{}", cause)?;', 'writeln!(f, "{}", cause.message)?;')], 'E01'),
    ('disp-swap', [(X, '''                "{}:{}: {}",
                self.source_loc.line, self.source_loc.column, self.message''', '''                "{}:{}: {}",
                self.source_loc.line, self.source_loc.line, self.message''')], 'E01'),
    ('disp-glued', [(X, '"{}:{}: {}",', '"{}{}: {}",')], 'E01'),
    ('disp-notoken', [(X, '''                "{}:{} at {token:?}: {}",
''', '''                "{}:{} at token: {}",
'''), (X, 'if let Some(token) = &self.token', 'if let Some(_) = &self.token')], 'E01'),
    ('disp-skip', [(X, DE, '        for cause in &self.causes {\n            if cause.token.is_none() && self.causes.len() > 1 {\n                continue;\n            }\n            writeln!(f, "{}", cause)?;\n        }\n        Ok(())\n')], 'E01'),
    ('disp-err', [(X, '        Ok(())\n', '        Err(std::fmt::Error)\n')], 'E01'),
    ('disp-earlyok', [(X, DE, '        for cause in &self.causes {\n            return writeln!(f, "{}", cause);\n        }\n        Ok(())\n')], 'E01'),
    ('disp-emptytoken', [(X, 'if let Some(token) = &self.token {', 'if let Some(token) = self.token.as_ref().filter(|t| !t.is_empty()) {')], 'E01'),
    ('name-len-one', [(M, 'if !script_filename.is_empty() {', 'if script_filename.len() == 1 {')], 'C01'),
    ('name-len-two', [(M, 'if !script_filename.is_empty() {', 'if script_filename.len() > 2 {')], 'C01'),
    ('name-dash', [(M, 'if !script_filename.is_empty() {', "if script_filename.starts_with('-') {\n        run_repl();\n    } else if !script_filename.is_empty() {")], 'C01'),
    ('name-dot', [(M, 'let run_result = run_file(&script_filename);', "if !script_filename.contains('.') {\n            process::exit(0);\n        }\n        let run_result = run_file(&script_filename);")], 'C01'),
    ('name-always', [(M, 'if !script_filename.is_empty() {', 'if !script_filename.is_empty() || std::io::IsTerminal::is_terminal(&io::stdin()) {')], 'C02'),
    ('name-fixed', [(M, 'run_file(&script_filename)', 'run_file("main.coffee")')], 'C01'),
    ('eof-one', [(M, 'Ok(0) => break,', 'Ok(1) => break,')], 'C02'),
    ('eof-never', [(M, '            // End of input.\n            Ok(0) => break,\n', '')], 'C02'),
    ('eof-continue', [(M, 'Ok(0) => break,', 'Ok(0) => continue,')], 'C02'),
    ('eof-parse', [(M, 'Ok(0) => break,', 'Ok(0) => {\n                let result = run(&mut resolver, input, true);\n                print_result(&result, true);\n                break;\n            }')], 'C02'),
]
