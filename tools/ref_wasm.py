from mutants_wasm import *
EDITS = [
    ('r-match', [(W, BODY, '''    let resolved = match parser::parse(source).and_then(resolver::resolve) {
        Ok(r) => r,
        Err(e) => return Err(e.into()),
    };
    match serde_wasm_bindgen::to_value(&resolved.statements) {
        Ok(v) => Ok(v),
        Err(e) => Err(JsError::from(e)),
    }
''')], None),
    ('r-question', [(W, BODY, '''    let ast = parser::parse(source)?;
    let code = resolver::resolve(ast)?;
    Ok(serde_wasm_bindgen::to_value(&code.statements)?)
''')], None),
    ('r-helper', [(W, BODY, '''    let code = compile(source)?;
    to_js(&code)
'''), (W, '#[wasm_bindgen(js_name = parseString)]', '''fn compile(source: &str) -> Result<crate::ast::ResolvedCode, JsError> {
    let ast = parser::parse(source)?;
    Ok(resolver::resolve(ast)?)
}

fn to_js(code: &crate::ast::ResolvedCode) -> Result<JsValue, JsError> {
    serde_wasm_bindgen::to_value(&code.statements).map_err(JsError::from)
}

#[wasm_bindgen(js_name = parseString)]''')], None),
    ('r-newmsg', [(W, '.map_err(JsError::from)\n        .and_then', '.map_err(|e| JsError::new(&e.to_string()))\n        .and_then')], None),
    ('r-fmtmsg', [(W, '.map_err(JsError::from)\n        .and_then', '.map_err(|e| JsError::new(&format!("{e}")))\n        .and_then')], None),
    ('r-serialize', [(W, BODY, '''    use serde::Serialize;
    let code = parser::parse(source).and_then(resolver::resolve)?;
    let serializer = serde_wasm_bindgen::Serializer::new();
    code.statements.serialize(&serializer).map_err(JsError::from)
''')], None),
    ('r-resolver', [(W, '.and_then(resolver::resolve)', '.and_then(|ast| resolver::Resolver::new().resolve(ast))')], None),
    ('r-rename', [(W, 'pub fn wasm_parse_string', 'pub fn parse_string'), ('src/lib.rs', 'pub use wasm::wasm_parse_string', 'pub use wasm::parse_string')], None),
    ('r-expect', [(W, BODY, '''    let code = parser::parse(source).and_then(resolver::resolve)?;
    Ok(serde_wasm_bindgen::to_value(&code.statements).expect("trees can be serialised"))
''')], None),
    ('r-destruct', [(W, BODY, '''    let crate::ast::ResolvedCode { statements } =
        parser::parse(source).and_then(resolver::resolve)?;
    let value = serde_wasm_bindgen::to_value(&statements)?;
    Ok(value)
''')], None),
    ('r-map-iter', [(A, SERMAP, SERMAP.replace('&self.map {', 'self.map.iter() {'))], None),
    ('r-map-self-iter', [(A, SERMAP, SERMAP.replace('&self.map {', 'self.iter() {'))], None),
    ('r-map-collect', [(A, SERMAP, '        serializer.collect_map(&self.map)\n')], None),
    ('r-map-collect2', [(A, SERMAP, '        serializer.collect_map(self.iter())\n')], None),
    ('r-map-none', [(A, SERMAP, SERMAP.replace('Some(self.map.len())', 'Some(self.len())'))], None),
    ('r-map-kv', [(A, SERMAP, SERMAP.replace('map.serialize_entry(k, v)?;', 'map.serialize_key(k)?;\n            map.serialize_value(v)?;'))], None),
    ('r-map-while', [(A, SERMAP, '''        let mut map = serializer.serialize_map(Some(self.map.len()))?;
        let mut entries = self.map.iter();
        while let Some((key, value)) = entries.next() {
            map.serialize_entry(key, value)?;
        }
        map.end()
''')], None),
    ('r-map-try', [(A, SERMAP, '''        let mut map = serializer.serialize_map(Some(self.map.len()))?;
        self.map.iter().try_for_each(|(k, v)| map.serialize_entry(k, v))?;
        map.end()
''')], None),
    ('r-map-empty', [(A, SERMAP, '''        if self.is_empty() {
            return serializer.serialize_map(Some(0))?.end();
        }
''' + SERMAP)], None),
    ('r-map-index', [(A, SERMAP, '''        let mut map = serializer.serialize_map(Some(self.map.len()))?;
        for i in 0..self.map.len() {
            let (k, v) = self.map.get_index(i).unwrap();
            map.serialize_entry(k, v)?;
        }
        map.end()
''')], None),
    ('r-slot-manual', [(EN, '''#[cfg_attr(
    all(target_arch = "wasm32", target_os = "unknown"),
    derive(serde::Serialize)
)]
''', ''), (EN, 'impl SlotIndex {', '''#[cfg(all(target_arch = "wasm32", target_os = "unknown"))]
impl serde::Serialize for SlotIndex {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u8(self.0)
    }
}

impl SlotIndex {''')], None),
    ('r-transparent', [(EN, 'pub struct SlotIndex', '#[cfg_attr(%s, serde(transparent))]\npub struct SlotIndex' % WA)], None),
    ('r-getter', [(SL, 'pub column:', '#[cfg_attr(%s, serde(serialize_with = "plain"))]\n    pub column:' % WA), (SL, 'impl SourceLoc {', '#[cfg(%s)]\nfn plain<S: serde::Serializer>(x: &u16, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_u16(*x)\n}\n\nimpl SourceLoc {' % WA)], None),
    ('r-name-explicit', [att('pub superclass:', 'serde(rename = "superclass")')], None),
    ('r-default', [att('pub superclass:', 'serde(default)')], None),
]
