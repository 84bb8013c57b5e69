id = 'c02-refused-symbols-define-anyway'
prop = 'C02'
needs = 'custom symbols for a data object or function, which is refused'
breaks = 'it counts as defined afterwards: defining it properly is refused, and the emission lacks it'
edits = [
  ('src/artifact.rs', '                if stype.defined {', '                let defined = stype.defined;\n                if !symbols.is_empty() && !stype.decl.is_import() {\n                    // symbols are looked up from now on\n                    stype.define();\n                }\n                if defined {'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("d", Decl::data()).unwrap();
    let mut s = BTreeMap::new();
    s.insert("x".to_string(), 0);
    assert!(a.define_with_symbols("d", Data::Blob(vec![1]), s).is_err());
    a.define("d", vec![1]).unwrap();
}
'''
