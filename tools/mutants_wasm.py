W = 'src/wasm.rs'
A = 'src/ast.rs'
EN = 'src/environment.rs'
SL = 'src/source_loc.rs'
BODY = '''    parser::parse(&source)
        .and_then(resolver::resolve)
        .map_err(JsError::from)
        .and_then(|resolved| {
            serde_wasm_bindgen::to_value(&resolved.statements)
                .map_err(JsError::from)
        })
'''
SERMAP = '''        let mut map = serializer.serialize_map(Some(self.map.len()))?;
        for (k, v) in &self.map {
            map.serialize_entry(k, v)?;
        }
        map.end()
'''
WA = 'all(target_arch = "wasm32", target_os = "unknown")'


def att(field, a, f=A):
    return (f, field, '#[cfg_attr(%s, %s)]\n    %s' % (WA, a, field))


EDITS = [
    ('w-repl', [(W, 'parser::parse(&source)', 'parser::parse_repl_line(&source)')], 'W01'),
    ('w-trim', [(W, 'parser::parse(&source)', 'parser::parse(source.trim())')], 'W01'),
    ('w-newline', [(W, 'parser::parse(&source)', 'parser::parse(&format!("{source}\\n"))')], 'W01'),
    ('w-lower', [(W, 'parser::parse(&source)', 'parser::parse(&source.to_lowercase())')], 'W01'),
    ('w-swallow', [(W, BODY, '''    match parser::parse(source).and_then(resolver::resolve) {
        Ok(resolved) => serde_wasm_bindgen::to_value(&resolved.statements).map_err(JsError::from),
        Err(_) => serde_wasm_bindgen::to_value(&()).map_err(JsError::from),
    }
''')], 'W01'),
    ('w-msg', [(W, '.map_err(JsError::from)\n        .and_then', '.map_err(|_| JsError::new("parse error"))\n        .and_then')], 'W01'),
    ('w-first', [(W, '.map_err(JsError::from)\n        .and_then', '.map_err(|e| JsError::new(&e.causes[0].to_string()))\n        .and_then')], 'W01'),
    ('w-firstmsg', [(W, '.map_err(JsError::from)\n        .and_then', '.map_err(|e| JsError::new(&e.causes[0].message))\n        .and_then')], 'W01'),
    ('w-unwrap', [(W, BODY, '''    let ast = parser::parse(source).map_err(JsError::from)?;
    let resolved = resolver::resolve(ast).unwrap();
    serde_wasm_bindgen::to_value(&resolved.statements).map_err(JsError::from)
''')], 'W01'),
    ('w-noresolve', [(W, BODY, '''    let ast = parser::parse(source).map_err(JsError::from)?;
    serde_wasm_bindgen::to_value(&ast).map_err(JsError::from)
''')], 'W01'),
    ('w-resolve-clone', [(W, BODY, '''    let ast = parser::parse(source).map_err(JsError::from)?;
    let copy = ast.clone();
    resolver::resolve(ast).map_err(JsError::from)?;
    serde_wasm_bindgen::to_value(&copy).map_err(JsError::from)
''')], 'W01'),
    ('w-empty-null', [(W, BODY, '''    if source.is_empty() {
        return Ok(JsValue::NULL);
    }
    parser::parse(&source)
        .and_then(resolver::resolve)
        .map_err(JsError::from)
        .and_then(|resolved| {
            serde_wasm_bindgen::to_value(&resolved.statements)
                .map_err(JsError::from)
        })
''')], 'W01'),
    ('w-first-stmt', [(W, 'to_value(&resolved.statements)', 'to_value(&resolved.statements[0])')], 'W01'),
    ('w-firstopt', [(W, 'to_value(&resolved.statements)', 'to_value(&resolved.statements.first())')], 'W01'),
    ('w-empty-throw', [(W, '.and_then(|resolved| {', '.and_then(|resolved| {\n            if resolved.statements.is_empty() { return Err(JsError::new("empty program")); }')], 'W01'),
    ('w-debug', [(W, '.map_err(JsError::from)\n        .and_then', '.map_err(|e| JsError::new(&format!("{:?}", e)))\n        .and_then')], 'W01'),
    ('w-precheck', [(W, BODY, '''    if source.trim().is_empty() {
        return Err(JsError::new("nothing to parse"));
    }
''' + BODY)], 'W01'),
    ('w-export', [(W, 'js_name = parseString', 'js_name = parse')], 'W01'),
    # serialisers
    ('s-skip', [att('pub source_loc: SourceLoc,\n}\n\n#[cfg_attr(\n    all(target_arch = "wasm32", target_os = "unknown"),\n    derive(serde::Serialize)\n)]\n#[derive(Clone, Debug, PartialEq)]\npub struct NamedFunctionDefinition', 'serde(skip)')], 'W02'),
    ('s-rename', [att('pub superclass:', 'serde(rename = "super")')], 'W02'),
    ('s-skipif', [att('pub superclass:', 'serde(skip_serializing_if = "Option::is_none")')], 'W02'),
    ('s-skipif2', [att('pub methods:', 'serde(skip_serializing_if = "Vec::is_empty")')], 'W02'),
    ('s-camel', [(A, 'pub struct FunctionDefinition {', '#[cfg_attr(%s, serde(rename_all = "camelCase"))]\npub struct FunctionDefinition {' % WA)], 'W02'),
    ('s-flatten', [att('pub fun_def: FunctionDefinition', 'serde(flatten)')], 'W02'),
    ('s-untagged', [(A, 'serde(tag = "type", content = "args")', 'serde(untagged)')], 'W02'),
    ('s-untagged2', [(A, 'serde(tag = "type", content = "args")\n)]\n#[derive(Clone, Debug, PartialEq)]\npub enum Expr', 'serde(untagged)\n)]\n#[derive(Clone, Debug, PartialEq)]\npub enum Expr')], 'W02'),
    ('s-variant-rename', [att('WhileIncrement(', 'serde(rename = "While")')], 'W02'),
    ('s-variant-lower', [(A, 'serde(tag = "type", content = "args")', 'serde(tag = "type", content = "args", rename_all = "lowercase")')], 'W02'),
    ('s-op-rename', [att('GreaterEqual,', 'serde(rename = "Greater")')], 'W02'),
    ('s-op-skip', [att('GreaterEqual,', 'serde(skip)')], 'W02'),
    ('s-fieldskip', [(A, 'If(Expr, Box<Stmt>, Option<Box<Stmt>>)', 'If(Expr, Box<Stmt>, #[cfg_attr(%s, serde(skip))] Option<Box<Stmt>>)' % WA)], 'W02'),
    ('s-fieldskip-loc', [(A, 'Variable(String, Cell<VarLoc>, SourceLoc)', 'Variable(String, #[cfg_attr(%s, serde(skip))] Cell<VarLoc>, SourceLoc)' % WA)], 'W02'),
    ('s-loc-skip', [(SL, 'pub column:', '#[cfg_attr(%s, serde(skip))]\n    pub column:' % WA)], 'W02'),
    ('s-loc-swap', [(SL, 'pub line:', '#[cfg_attr(%s, serde(rename = "column"))]\n    pub line:' % WA), (SL, 'pub column:', '#[cfg_attr(%s, serde(rename = "line"))]\n    pub column:' % WA)], 'W02'),
    ('s-with', [(SL, 'pub column:', '#[cfg_attr(%s, serde(serialize_with = "zero"))]\n    pub column:' % WA), (SL, 'impl SourceLoc {', '#[cfg(%s)]\nfn zero<S: serde::Serializer>(_: &u16, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_u16(0)\n}\n\nimpl SourceLoc {' % WA)], 'W02'),
    ('m-first', [(A, SERMAP, SERMAP.replace('&self.map {', 'self.map.iter().take(1) {'))], 'W02'),
    ('m-rev', [(A, SERMAP, SERMAP.replace('&self.map {', 'self.map.iter().rev() {'))], 'W02'),
    ('m-skip', [(A, SERMAP, SERMAP.replace('&self.map {', 'self.map.iter().skip(1) {'))], 'W02'),
    ('m-btree', [(A, SERMAP, SERMAP.replace('&self.map {', 'self.map.iter().collect::<std::collections::BTreeMap<_, _>>() {'))], 'W02'),
    ('m-sorted', [(A, SERMAP, '''        let mut entries: Vec<_> = self.map.iter().collect();
        entries.sort_by(|a, b| a.0.cmp(b.0));
''' + SERMAP.replace('&self.map {', 'entries {'))], 'W02'),
    ('m-break', [(A, SERMAP, SERMAP.replace('map.serialize_entry(k, v)?;', 'if k.is_empty() { break; }\n            map.serialize_entry(k, v)?;'))], 'W02'),
    ('m-noempty', [(A, SERMAP, SERMAP.replace('map.serialize_entry(k, v)?;', 'if k.is_empty() { continue; }\n            map.serialize_entry(k, v)?;'))], 'W02'),
    ('m-swallow', [(A, SERMAP, SERMAP.replace('map.serialize_entry(k, v)?;', 'let _ = map.serialize_entry(k, v);'))], 'W02'),
    ('m-keys', [(A, SERMAP, SERMAP.replace('map.serialize_entry(k, v)?;', 'map.serialize_entry(&k.to_lowercase(), v)?;'))], 'W02'),
    ('m-unit', [(A, SERMAP, '''        if self.map.is_empty() {
            return serializer.serialize_unit();
        }
''' + SERMAP)], 'W02'),
    ('m-limit', [(A, SERMAP, SERMAP.replace('map.end()', 'map.end()').replace('''        for (k, v) in &self.map {
            map''', '''        for (i, (k, v)) in self.map.iter().enumerate() {
            if i >= 255 { break; }
            map'''))], 'W02'),
    ('m-value-pairs', [(A, SERMAP, SERMAP.replace('''        for (k, v) in &self.map {
            map.serialize_entry(k, v)?;
        }''', '''        for v in self.map.values() {
            map.serialize_entry("", v)?;
        }'''))], 'W02'),
    ('m-seq', [(A, SERMAP, '''        serializer.collect_seq(self.map.values())
''')], 'W02'),
    ('m-str', [(A, SERMAP, '''        let _ = &serializer;
        serializer.serialize_str("map")
''')], 'W02'),
    ('s-from', [(EN, 'pub struct SlotIndex', '#[cfg_attr(%s, serde(into = "u16"))]\npub struct SlotIndex' % WA), (EN, 'impl SlotIndex {', '#[cfg(%s)]\nimpl From<SlotIndex> for u16 {\n    fn from(_: SlotIndex) -> u16 {\n        0\n    }\n}\n\nimpl SlotIndex {' % WA)], 'W02'),
    ('s-varloc', [(EN, '    distance: u16,', '    #[cfg_attr(%s, serde(skip))]\n    distance: u16,' % WA)], 'W02'),
]
