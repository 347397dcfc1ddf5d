R = 'src/resolver.rs'
PRE = r'''fn run(src: &str) -> Result<String, String> {
    let tree = parser::parse(src).unwrap();
    match whitespace::resolver::resolve(tree) {
        Ok(c) => Ok(format!("{:?}", c.statements)),
        Err(e) => Err(e.to_string()),
    }
}
fn lines(r: &mut Resolver, src: &str) -> Result<String, String> {
    match r.resolve(parser::parse_repl_line(src).unwrap()) {
        Ok(c) => Ok(format!("{:?}", c.statements)),
        Err(e) => Err(e.to_string()),
    }
}
// bindings of uses, in order: the text after "VarLoc"
fn uses(s: &str) -> Vec<(u32, u32)> {
    s.split("VarLoc {").skip(1).map(|x| {
        let n: Vec<u32> = x.split('}').next().unwrap().split(|c: char| !c.is_ascii_digit()).filter(|d| !d.is_empty()).map(|d| d.parse().unwrap()).collect();
        (n[0], n[1])
    }).collect()
}
'''
SEEDS = [
 dict(id='r01-long-array', property='R01',
  edits=[(R, "for element in elements.iter_mut() {", "for element in elements.iter_mut().take(255) {")],
  needs='an array literal with more than 255 elements that mentions a variable late',
  breaks='the later elements are not resolved: their uses keep the placeholder binding',
  demo=PRE + r'''fn main() {
    for n in [1, 10, 254, 255, 256, 300] {
        let s = run(&format!("var a = 1\nvar b = [{}b, a]\n", "a, ".repeat(n)));
        assert!(s.is_err());
        let s = run(&format!("var a = 1\nvar c = 2\nvar b = [{}a, c]\n", "a, ".repeat(n))).unwrap();
        assert_eq!(uses(&s).last(), Some(&(0, 1)));
    }
}
'''),
 dict(id='r02-shadow-halfway', property='R02',
  edits=[(R, "            let scope = &self.scopes[i];\n            match scope.get(identifier) {\n                None => (),\n", "            let scope = &self.scopes[i];\n            match scope.get(identifier) {\n                Some(s) if i > 0 && s.defined_state == DeclaredVar => (),\n                None => (),\n")],
  needs='a function inside the initializer of a local variable that uses that variable, with an outer variable of the same name',
  breaks='the use is bound to the outer variable instead of the one being declared',
  demo=PRE + r'''fn main() {
    let s = run("var f = 1\nif (true)\n  var f = fun(x) {\n    return f\n  }\n").unwrap();
    assert_eq!(uses(&s), vec![(1, 0)], "{}", s);
}
'''),
 dict(id='r03-forward-limit', property='R03',
  edits=[(R, "        ensure_scope_index_limit(scope.len(), identifier, loc)?;\n        match scope.entry(identifier.to_owned()) {\n            entry @", "        match scope.entry(identifier.to_owned()) {\n            entry @")],
  needs='more than 256 names that are used but declared nowhere',
  breaks='the 257th shares the slot of the first',
  demo=PRE + r'''fn main() {
    let mut s = String::new();
    for i in 0..300 {
        s.push_str(&format!("print v{}\n", i));
    }
    match run(&s) {
        Err(_) => {}
        Ok(t) => {
            let mut u = uses(&t);
            let n = u.len();
            u.sort();
            u.dedup();
            assert_eq!(u.len(), n);
        }
    }
}
'''),
 dict(id='r04-param-scope-leak', property='R04',
  edits=[(R, "            result = self.define(&parameter.name, &parameter.source_loc);\n            if result.is_err() {\n                break;\n            }\n        }\n        if", "            self.define(&parameter.name, &parameter.source_loc)?;\n        }\n        if")],
  needs='a function with two parameters of one name, and a later statement resolved by the same resolver',
  breaks='the scope of the rejected function stays open: later declarations are local and nested one deeper',
  demo=PRE + r'''fn main() {
    let mut r = Resolver::new();
    assert!(lines(&mut r, "fun f(a, a)\n  return a\n").is_err());
    let s = lines(&mut r, "print zz\n").unwrap();
    assert_eq!(uses(&s)[0].0, 0, "{}", s);
}
'''),
 dict(id='r05-method-in-class-kind', property='R05',
  edits=[(R, "                self.class_type = if class_def.has_superclass() {", "                self.class_type = if class_def.has_superclass() || enclosing_class_type == ClassType::Subclass {")],
  needs='super in a class without superclass that is declared inside a method of a class with one',
  breaks='super is accepted there and bound to the superclass of the outer class',
  demo=PRE + r'''fn main() {
    assert!(run("class B\n  m()\n    return 1\nclass A < B\n  m()\n    class C\n      k()\n        return super.m\n").is_err());
    assert!(run("class B\n  m()\n    return 1\nclass A < B\n  m()\n    return super.m\n").is_ok());
    assert!(run("class B\n  m()\n    return super.m\n").is_err());
}
'''),
 dict(id='r05-init-nested-fun', property='R05',
  edits=[(R, "                let fun_type = if method.name == \"init\" {", "                let fun_type = if method.name == \"init\" && self.function_type != FunctionType::Initializer {")],
  needs='a class inside the init method of another class, whose own init returns a value',
  breaks='the returned value is accepted',
  demo=PRE + r'''fn main() {
    assert!(run("class A\n  init()\n    class B\n      init()\n        return 1\n").is_err());
    assert!(run("class A\n  m()\n    class B\n      init()\n        return 1\n").is_err());
}
'''),
 dict(id='r06-redefine-forward', property='R06',
  edits=[(R, "        if already_defined && !self.is_in_global_scope() {", "        if already_defined && self.scopes.len() > 2 {")],
  needs='two functions of one name in an outermost block',
  breaks='the second declaration is accepted',
  demo=PRE + r'''fn main() {
    assert!(run("if (true)\n  fun f(a)\n    return a\n  fun f(b)\n    return b\n").is_err());
    assert!(run("if (true)\n  if (true)\n    fun f(a)\n      return a\n    fun f(b)\n      return b\n").is_err());
}
'''),
 dict(id='r07-function-kind-leak', property='R07',
  edits=[(R, "        self.function_type = enclosing_func_type;\n\n        result", "        if result.is_ok() {\n            self.function_type = enclosing_func_type;\n        }\n\n        result")],
  needs='a line whose function body is rejected, followed by a top-level return on a later line',
  breaks='the later return is accepted',
  demo=PRE + r'''fn main() {
    let mut r = Resolver::new();
    assert!(lines(&mut r, "return 1\n").is_err());
    assert!(lines(&mut r, "fun f(a)\n  var b = b\n").is_err());
    assert!(lines(&mut r, "return 1\n").is_err());
}
'''),
 dict(id='r08-error-once', property='R08',
  edits=[(R, "                errors.push(error);\n", "                errors.insert(errors.len().min(8), error);\n")],
  needs='a program with more than nine failing statements',
  breaks='from the tenth on, errors are reported out of order',
  demo=PRE + r'''fn main() {
    let mut s = String::new();
    for _ in 0..12 {
        s.push_str("return 1\n");
    }
    let e = run(&s).unwrap_err();
    let l: Vec<u32> = e.lines().filter(|x| x.contains("Cannot return")).map(|x| x.split(':').next().unwrap().trim_start_matches('[').replace("line ", "").parse().unwrap()).collect();
    assert_eq!(l, (1..13).collect::<Vec<_>>(), "{}", e);
}
'''),
 dict(id='r09-dup-param-loc', property='R09',
  edits=[(R, "            result = self.define(&parameter.name, &parameter.source_loc);", "            result = self.define(&parameter.name, &fun_def.source_loc);")],
  needs='a function with two parameters of one name',
  breaks='the error points at the function instead of the second parameter',
  demo=PRE + r'''fn main() {
    let e = run("fun f(a, b, a)\n  return a\n").unwrap_err();
    assert!(e.contains("1:13"), "{}", e);
}
'''),
]
