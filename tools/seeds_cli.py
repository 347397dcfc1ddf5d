from mutants_cli import M, X, LOOP, READ, DE
BIN = r'''#!/bin/bash
# Run with the repository as current directory: builds the command line program in a scratch directory and runs it.
set -u
repo=$(pwd)
scratch=$(mktemp -d /tmp/wsdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
CARGO_TARGET_DIR="$scratch/target" timeout 250 cargo build --offline --quiet --manifest-path "$repo/Cargo.toml" || exit 2
ws="$scratch/target/debug/whitespace"
cd "$scratch" || exit 2
fail() { echo "$@"; exit 1; }
'''
SEEDS = [
 dict(id='c01-status-count', property='C01',
  edits=[(M, 'Err(RunError::RunParseError(_)) => process::exit(65),', 'Err(RunError::RunParseError(e)) => {\n                process::exit(64 + e.causes.len() as i32)\n            }')],
  needs='a file with more than one error',
  breaks='the exit status is 64 plus the number of errors, so anything but one error gives another status than 65',
  demo_sh=BIN + r'''
printf 'var a = 1\nprint a\n' > ok.ws
printf 'var a = \n' > one.ws
printf 'var = 1\nvar = 2\nvar = 3\n' > many.ws
"$ws" ok.ws > /dev/null 2>&1; r=$?; [ $r = 0 ] || fail "ok: $r"
"$ws" one.ws > /dev/null 2>&1; r=$?; [ $r = 65 ] || fail "one: $r"
"$ws" many.ws > /dev/null 2>&1; r=$?; [ $r = 65 ] || fail "many: $r"
'''),
 dict(id='c02-reset-after-error', property='C02',
  edits=[(M, READ, READ.replace('print_result(&result, true);\n', 'print_result(&result, true);\n                if result.is_err() {\n                    // Do not keep half-resolved scopes.\n                    resolver = Resolver::new();\n                }\n'))],
  needs='a line with an error between a declaration and its use',
  breaks='an erroneous line makes the prompt forget the global declarations of earlier lines',
  demo_sh=BIN + r'''
printf 'var a = 1\nvar b = 2\nprint b\nvar c = = 3\nprint b\n' | "$ws" > out.txt 2> err.txt || fail status
n=$(grep -c 'index: 1' out.txt)
m=$(grep -c 'Variable' out.txt)
[ "$m" = 2 ] || fail "uses: $m"
u=$(grep -A12 'Variable' out.txt | grep -E 'index' | sort -u | wc -l)
[ "$u" = 1 ] || { cat out.txt; fail "the two uses of b differ"; }
'''),
 dict(id='c02-sticky-input', property='C02',
  edits=[(M, '    let mut resolver = Resolver::new();\n    loop {', '    let mut resolver = Resolver::new();\n    let mut input = String::new();\n    loop {'),
         (M, '        let mut input = String::new();\n        match stdin', '        match stdin'),
         (M, 'let result = run(&mut resolver, input, true);', 'let result = run(&mut resolver, input.clone(), true);'),
         (M, '                print_result(&result, true);\n            }\n            Err(error)', '                print_result(&result, true);\n                if result.is_ok() {\n                    input.clear();\n                }\n            }\n            Err(error)')],
  needs='a line with an error followed by another line',
  breaks='the erroneous line is parsed again together with every later line, so the prompt never accepts anything again',
  demo_sh=BIN + r'''
printf 'var a = 1\nprint a\n' | "$ws" > out.txt 2> err.txt || fail status
[ -s err.txt ] && fail "errors without an error"
printf 'var a = 1\nvar = 2\nprint a\nprint a\n' | "$ws" > out.txt 2> err.txt || fail status
n=$(grep -c 'Print' out.txt)
[ "$n" = 2 ] || fail "printed $n"
'''),
 dict(id='c03-cascade', property='C03',
  edits=[(M, LOOP, '''                    let mut last_line = None;
                    for cause in err.causes.iter() {
                        // Later errors on a line usually follow from the first.
                        if last_line != Some(cause.source_loc.line) {
                            print_parse_error(cause);
                        }
                        last_line = Some(cause.source_loc.line);
                    }
''')],
  needs='two errors on one line',
  breaks='only the first error of a line is printed',
  demo_sh=BIN + r'''
printf 'var = 1\nvar = 2\n' > two.ws
"$ws" two.ws > out.txt 2> err.txt
[ "$(wc -l < err.txt)" = 2 ] || { cat err.txt; fail "two lines"; }
printf '# @ ~\n' > one.ws
"$ws" one.ws > out.txt 2> err.txt
[ "$(wc -l < err.txt)" -ge 2 ] || { cat err.txt; fail "one line"; }
'''),
 dict(id='c03-empty-token', property='C03',
  edits=[(M, '''        Some(ref token) => {
            report_error_at_token(&error.source_loc, token, &error.message)
        }
''', '''        Some(ref token) => {
            let short = token.lines().next().unwrap_or(token);
            report_error_at_token(&error.source_loc, short, &error.message)
        }
''')],
  needs='an error at a token whose text spans lines',
  breaks='only the first line of the token text is printed',
  demo_sh=BIN + r'''
printf 'var "a\nb" = 1\n' > a.ws
"$ws" a.ws > out.txt 2> err.txt
grep -q 'a' err.txt && tr '\n' ' ' < err.txt | grep -q 'b"\{0,1\}.:' || { cat err.txt; fail "token text"; }
'''),
 dict(id='e01-repeats', property='E01',
  edits=[(X, DE, '''        let mut last = None;
        for cause in &self.causes {
            if last != Some(&cause.message) {
                writeln!(f, "{}", cause)?;
            }
            last = Some(&cause.message);
        }
        Ok(())
''')],
  needs='two consecutive causes with the same message at different places',
  breaks='the second is missing from the text of the error',
  demo=r'''fn main() {
    for src in ["break\n", "break\nbreak\n", "var = 1\nvar = 2\nvar = 3\n"] {
        let e = match parser::parse(src).and_then(whitespace::resolver::resolve) {
            Err(e) => e,
            Ok(_) => continue,
        };
        let text = e.to_string();
        for c in &e.causes {
            let entry = format!("{}:{}", c.source_loc.line, c.source_loc.column);
            assert!(text.lines().any(|l| l.starts_with(&entry) && l.contains(&c.message)), "{:?} lacks {:?}", text, c);
        }
    }
}
'''),
 dict(id='e01-wide', property='E01',
  edits=[(X, '''                "{}:{}: {}",
                self.source_loc.line, self.source_loc.column, self.message''', '''                "{}:{}: {}",
                self.source_loc.line,
                self.source_loc.column.min(999),
                self.message''')],
  needs='an error without a token beyond column 999',
  breaks='the text gives column 999',
  demo=r'''fn main() {
    for n in [1, 500, 998, 2000] {
        let src = format!("{}#\n", " ".repeat(n));
        let e = parser::parse(&src).and_then(whitespace::resolver::resolve).err().unwrap_or(ParseError::new(vec![]));
        let mut causes = e.causes.clone();
        causes.push(ParseErrorCause::new(SourceLoc { line: 3, column: n as u16 }, "nothing"));
        let text = ParseError::new(causes.clone()).to_string();
        for c in &causes {
            let entry = format!("{}:{}", c.source_loc.line, c.source_loc.column);
            assert!(text.lines().any(|l| l.starts_with(&entry) && l.contains(&c.message)), "{:?} lacks {:?}", text, c);
        }
    }
}
'''),

 dict(id='c01-no-extension', property='C01',
  edits=[(M, 'if !script_filename.is_empty() {', "if script_filename.contains('.') || script_filename.contains('/') {")],
  needs='a file whose name has neither a dot nor a slash',
  breaks='the named file is not run: the prompt is started, and the status is 0 whatever the file holds',
  demo_sh=BIN + r'''
printf 'var = 1\n' > bad.ws
printf 'var = 1\n' > bad
"$ws" bad.ws > /dev/null 2>&1 < /dev/null; r=$?; [ $r = 65 ] || fail "bad.ws: $r"
"$ws" bad > /dev/null 2>&1 < /dev/null; r=$?; [ $r = 65 ] || fail "bad: $r"
'''),
 dict(id='c02-blank-ends', property='C02',
  edits=[(M, '            Ok(0) => break,\n', '            Ok(0) | Ok(1) => break,\n')],
  needs='an empty line in the middle of the input',
  breaks='the prompt ends at the first empty line',
  demo_sh=BIN + r'''
printf 'print 1\n\nprint 2\n' | "$ws" > out.txt 2> err.txt || fail status
n=$(grep -c 'Print' out.txt)
[ "$n" = 2 ] || fail "printed $n"
'''),
]
