id = 'c02-rejected-zero-init-counts-as-definition'
prop = 'C02'
needs = 'a zero-init definition of a function, rejected, followed by emission or a valid definition'
breaks = 'the rejected call marks the function defined, so it is emitted without it and can no longer be defined'
edits = [
  ('src/artifact.rs',
   '                    DefinedDecl::Data(_) => {}\n                    _ => {\n                        if let Data::ZeroInit(_) = data {\n                            return',
   '                    DefinedDecl::Data(_) => stype.define(),\n                    _ => {\n                        stype.define();\n                        if let Data::ZeroInit(_) = data {\n                            return'),
  ('src/artifact.rs',
   '                stype.define();\n            }\n            None =>',
   '            }\n            None =>'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("f", Decl::function().global()).unwrap();
    assert!(a.define_zero_init("f", 8).is_err());
    assert_eq!(a.undefined_symbols(), ["f"]);
    assert!(a.emit().is_err());
    a.define("f", vec![0xc3]).unwrap();
    assert!(esym(&emit_elf(&a), "f").is_some());
}
'''
