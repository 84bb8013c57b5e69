id = 'c01-align-ignored-in-redeclaration'
prop = 'C01'
needs = 'a function redeclared with another alignment and nothing else changed'
breaks = 'a conflicting redeclaration is accepted'
edits = [
  ('src/artifact/decl.rs',
   '            decl @ Decl::Defined(DefinedDecl::Function { .. }) => match other {\n                Decl::Import(ImportKind::Function) => Ok(()),\n                other => {\n                    if decl == other {',
   '            decl @ Decl::Defined(DefinedDecl::Function { .. }) => match other {\n                Decl::Import(ImportKind::Function) => Ok(()),\n                mut other => {\n                    // alignment is a request to the backend and not part of the signature\n                    if let (Decl::Defined(DefinedDecl::Function(ref mut new)), Decl::Defined(DefinedDecl::Function(old))) = (&mut other, decl) {\n                        new.set_align(old.get_align());\n                    }\n                    if decl == other {'),
]
main = r'''fn main() {
    let mut a = linux();
    a.declare("f", Decl::function().with_align(Some(16))).unwrap();
    assert!(a.declare("f", Decl::function().with_align(Some(16))).is_ok());
    assert!(a.declare("f", Decl::function().global().with_align(Some(16))).is_err());
    assert!(a.declare("f", Decl::function().with_align(Some(64))).is_err());
}
'''
