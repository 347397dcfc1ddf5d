from mutants_wasm import W, A, EN, SL, BODY, SERMAP, WA, att
SH = r'''#!/bin/bash
# Run with the repository as current directory: builds the library on this machine with the WebAssembly configuration
# switched on (its serialisers are compiled only there) in a scratch directory, and runs demo.rs against it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d /tmp/wsdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir "$scratch/src" "$scratch/ws"
cp "$here/demo.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
whitespace = { path = "ws" }
serde_json = { version = "1", features = ["preserve_order"] }
[workspace]
members = ["ws"]
END
cat > "$scratch/ws/Cargo.toml" <<END
[package]
name = "whitespace"
version = "0.1.0"
edition = "2024"
[lib]
path = "$repo/src/lib.rs"
crate-type = ["rlib"]
[dependencies]
argparse = "0.2.2"
fnv = "1.0.7"
indexmap = "2.9"
lazy_static = "1.5.0"
unicode-segmentation = "1.12"
serde = { version = "1.0", features = ["derive"] }
serde-wasm-bindgen = "0.6.0"
wasm-bindgen = "0.2.100"
END
cat > "$scratch/wrap.sh" <<'END'
#!/bin/bash
rustc=$1; shift
case " $* " in *" --crate-name whitespace "*) exec "$rustc" "$@" --cfg 'target_arch="wasm32"' --cfg 'target_os="unknown"' -Aexplicit_builtin_cfgs_in_flags;; esac
exec "$rustc" "$@"
END
chmod +x "$scratch/wrap.sh"
cd "$scratch" || exit 2
export CARGO_TARGET_DIR="$scratch/target" RUSTC_WORKSPACE_WRAPPER="$scratch/wrap.sh" RUSTFLAGS="-Clink-arg=-Wl,--unresolved-symbols=ignore-all"
timeout 250 cargo build --offline --quiet 2> build.txt || { cat build.txt; exit 2; }
timeout 20 "$scratch/target/debug/demo"
'''
JS = '''use serde_json::Value;

fn json(source: &str) -> Value {
    let ast = whitespace::parser::parse(source).expect("parses");
    let code = whitespace::resolver::resolve(ast).expect("resolves");
    serde_json::to_value(&code.statements).expect("serialises")
}
'''
SEEDS = [
 dict(id='w02-empty-key', property='W02',
  edits=[(A, SERMAP, '''        // Placeholders have no name.
        let entries = self.map.iter().filter(|(k, _)| !k.is_empty());
        let mut map = serializer.serialize_map(None)?;
        for (k, v) in entries {
            map.serialize_entry(k, v)?;
        }
        map.end()
''')],
  needs='a map literal with the empty string as a key, serialised for JavaScript',
  breaks='the entry with the empty key is left out of the serialised tree',
  demo_sh=SH, pre='', demo=JS + '''
fn main() {
    let v = json("var m = {\\"b\\": 1, \\"\\": 2, \\"a\\": 3}\\n");
    let m = &v[0]["args"][2]["args"];
    let keys: Vec<&String> = m.as_object().expect("a map").keys().collect();
    assert_eq!(keys, ["b", "", "a"]);
}
'''),
 dict(id='w02-no-superclass', property='W02',
  edits=[att('pub superclass:', 'serde(skip_serializing_if = "Option::is_none")'),
         att('pub methods:', 'serde(skip_serializing_if = "Vec::is_empty")')],
  needs='a class without a superclass or without methods, serialised for JavaScript',
  breaks='the empty fields are left out of the serialised class',
  demo_sh=SH, pre='', demo=JS + '''
fn main() {
    let v = json("class A\\n  f()\\n    print 1\\nclass B < A\\n  g()\\n    print 1\\n");
    for c in v.as_array().unwrap() {
        let c = c["args"].as_object().expect("a class");
        for f in ["name", "superclass", "methods", "source_loc"] {
            assert!(c.contains_key(f), "no {f}");
        }
    }
}
'''),
 dict(id='w02-while-merged', property='W02',
  edits=[att('WhileIncrement(', 'serde(rename = "While")')],
  needs='a for loop with an increment, serialised for JavaScript',
  breaks='a loop with an increment has the name of a plain while loop',
  demo_sh=SH, pre='', demo=JS + '''
fn main() {
    let v = json("while (true) print 1\\nfor (var i = 0; i < 2; i = i + 1) print i\\n");
    let t = v.to_string();
    assert!(t.contains("\\"While\\"") && t.contains("\\"WhileIncrement\\""), "{t}");
}
'''),
 dict(id='w02-slot-sign', property='W02',
  edits=[(EN, '''#[cfg_attr(
    all(target_arch = "wasm32", target_os = "unknown"),
    derive(serde::Serialize)
)]
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct SlotIndex(u8);
''', '''#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct SlotIndex(u8);

#[cfg(all(target_arch = "wasm32", target_os = "unknown"))]
impl serde::Serialize for SlotIndex {
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: serde::Serializer,
    {
        serializer.serialize_i8(self.0 as i8)
    }
}
''')],
  needs='a scope with more than 128 variables, serialised for JavaScript',
  breaks='slot numbers above 127 are serialised as negative numbers',
  demo_sh=SH, pre='', demo=JS + '''
fn main() {
    let mut s = String::new();
    for i in 0..200 {
        s.push_str(&format!("var v{i} = {i}\\n"));
    }
    let v = json(&s);
    for (i, x) in v.as_array().unwrap().iter().enumerate() {
        assert_eq!(x["args"][1].as_i64(), Some(i as i64));
    }
}
'''),
 dict(id='w02-loc-default', property='W02',
  edits=[(SL, 'pub column: u16', '#[cfg_attr(%s, serde(skip_serializing_if = "is_first"))]\n    pub column: u16' % WA),
         (SL, 'impl SourceLoc {', '#[cfg(%s)]\nfn is_first(column: &u16) -> bool {\n    *column == 1\n}\n\nimpl SourceLoc {' % WA)],
  needs='a node at the start of a line, serialised for JavaScript',
  breaks='the column of nodes in the first column is left out',
  demo_sh=SH, pre='', demo=JS + '''
fn check(v: &Value) {
    if let Some(o) = v.as_object() {
        assert_eq!(o.contains_key("line"), o.contains_key("column"), "{v}");
        o.values().for_each(check);
    }
    if let Some(a) = v.as_array() {
        a.iter().for_each(check);
    }
}

fn main() {
    check(&json("var a = 1\\na = 2\\na()\\n"));
}
'''),
 dict(id='w01-blank-null', property='W01',
  edits=[(W, BODY, '''    // Nothing to do for blank input.
    if source.trim().is_empty() {
        return Ok(JsValue::UNDEFINED);
    }
''' + BODY)],
  needs='a source of white space only, given to the JavaScript function',
  breaks='undefined is returned instead of an empty list of statements',
  demo_sh=SH, pre='', demo='''use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    // The functions that make JavaScript values panic outside JavaScript: whatever does not even call them makes none.
    std::panic::set_hook(Box::new(|_| ()));
    let made = |s: &str| catch_unwind(AssertUnwindSafe(|| whitespace::wasm_parse_string(s).is_ok())).is_err();
    assert!(made("print 1\\n") && made("print = 1\\n"));
    for s in ["", "\\n", " \\n\\n"] {
        if !made(s) {
            eprintln!("no array is made for {s:?}");
            std::process::exit(1);
        }
    }
}
'''),
]
