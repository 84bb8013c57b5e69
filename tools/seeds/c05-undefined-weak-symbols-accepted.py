id = 'c05-undefined-weak-symbols-accepted'
prop = 'C05'
needs = 'a weak declaration that is never defined'
breaks = 'an incomplete artifact is emitted without the declared symbol'
edits = [
  ('src/artifact.rs',
   '            .filter(|&(_, &int)| !int.defined && !int.decl.is_import())',
   '            .filter(|&(_, &int)| {\n                // nobody has to provide a weak symbol\n                let weak = match int.decl {\n                    Decl::Defined(DefinedDecl::Function(d)) => d.get_scope() == Scope::Weak,\n                    Decl::Defined(DefinedDecl::Data(d)) => d.get_scope() == Scope::Weak,\n                    _ => false,\n                };\n                !int.defined && !weak && !int.decl.is_import()\n            })'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare_with("f", Decl::function().global(), vec![0xc3]).unwrap();
    a.declare("w", Decl::function().weak()).unwrap();
    match a.emit() {
        Err(ArtifactError::UndefinedSymbols(l)) => assert_eq!(l, ["w"]),
        r => panic!("{:?}", r.map(|b| b.len())),
    }
}
'''
